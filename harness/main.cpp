#include "pbt.hpp"
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
