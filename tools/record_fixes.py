import subprocess
lg=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
m={'flat resolution gives due east':'P25','Perimeter counts':'P26','find_square':'P23','FindFlatEdges counts':'P24','raising the cells of flats':'P24','d8_flats_alter':'P06','FM_OCallaghan did':'P08','D4 and Rho4':'P08','D-infinity flow due':'P07','FM_Tarboton':'P08','from_cache':'P10','dinf_upslope_area gave no':'P10','dinf_upslope_area gave the':'P10','data races on':'P10','misc_methods.hpp':'P10','seed_rand seeded':'P11','normal_rand kept':'P11','aspect of a flat':'P12','flipHorz':'P15','radix heap shifted':'P13','GetDepressionHierarchy threw':'P13','raster.s first cell for a pit':'P14','sill.s water table':'P14','rounding could give a depression':'P14','ManagedVector that wraps':'P15','transpose scrambled':'P15','countval read':'P15','numDataCells returned a stale':'P15','Array3D':'P15','metadata of a GDAL file':'P17','without a description':'P17','initializer list could not be saved':'P17','radix_heap::min':'P16','LRU cache':'P16','caching a raster without':'P17','could not be written to its cache':'P17','incomplete native':'P17','padded raster':'P17','period in a directory':'P18','blank layout':'P18','full disk':'P17','tiled raster':'P18','label cache':'P19','than the one probed':'P19','ending a consumer':'P19','representative tile':'P19','more than 2TB':'P19','diagonally between':'P20','parallel_d8_accum threw':'P20','null tile':'P19','^fix: rd_compare reads':'P23','rd_no_data':'P23','rd_hist':'P23','rd_expand_dim':'P23','rd_terrain_property':'P23','rd_depression_hierarchy':'P23','the apps report':'P23','refuses every integer type':'P02','rdarray takes its NoData':'P22','SaveGDAL':'P22','rd_breach_depressions .Python':'P22','rd_compare .Python':'P22','Python Flow':'P21','not C-contiguous':'P21','Python setNoData':'P21','Python fill_spill_merge':'P21'}
f='/verif/known_findings.txt'; L=open(f).read().splitlines()
have=set(l.split()[2] for l in L if l.startswith('fixed:'))
idx=max(i for i,l in enumerate(L) if l.startswith('fixed:') or l.startswith('#'))+1
for l in lg:
    h,s=l.split(' ',1)
    if not s.startswith('fix:') or h in have: continue
    p=[v for k,v in m.items() if __import__("re").search(k, s)]
    if not p: print('unmapped',l); continue
    L.insert(idx,f"fixed: property={p[0]} {h} {s[5:]}"); idx+=1
open(f,'w').write('\n'.join(L)+'\n')
