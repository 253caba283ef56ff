// Code generated by tools/gen_families.py; DO NOT EDIT.

package main

// concFamilies are isomorphic sets of types, so that a first use can happen many times in one process.
var concFamilies = [...]func(sh *concShared) []concOp{
	concOps[*[0]int],
	concOps[*[1]int],
	concOps[*[2]int],
	concOps[*[3]int],
	concOps[*[4]int],
	concOps[*[5]int],
	concOps[*[6]int],
	concOps[*[7]int],
	concOps[*[8]int],
	concOps[*[9]int],
	concOps[*[10]int],
	concOps[*[11]int],
	concOps[*[12]int],
	concOps[*[13]int],
	concOps[*[14]int],
	concOps[*[15]int],
	concOps[*[16]int],
	concOps[*[17]int],
	concOps[*[18]int],
	concOps[*[19]int],
	concOps[*[20]int],
	concOps[*[21]int],
	concOps[*[22]int],
	concOps[*[23]int],
	concOps[*[24]int],
	concOps[*[25]int],
	concOps[*[26]int],
	concOps[*[27]int],
	concOps[*[28]int],
	concOps[*[29]int],
	concOps[*[30]int],
	concOps[*[31]int],
	concOps[*[32]int],
	concOps[*[33]int],
	concOps[*[34]int],
	concOps[*[35]int],
	concOps[*[36]int],
	concOps[*[37]int],
	concOps[*[38]int],
	concOps[*[39]int],
	concOps[*[40]int],
	concOps[*[41]int],
	concOps[*[42]int],
	concOps[*[43]int],
	concOps[*[44]int],
	concOps[*[45]int],
	concOps[*[46]int],
	concOps[*[47]int],
	concOps[*[48]int],
	concOps[*[49]int],
	concOps[*[50]int],
	concOps[*[51]int],
	concOps[*[52]int],
	concOps[*[53]int],
	concOps[*[54]int],
	concOps[*[55]int],
	concOps[*[56]int],
	concOps[*[57]int],
	concOps[*[58]int],
	concOps[*[59]int],
	concOps[*[60]int],
	concOps[*[61]int],
	concOps[*[62]int],
	concOps[*[63]int],
	concOps[*[64]int],
	concOps[*[65]int],
	concOps[*[66]int],
	concOps[*[67]int],
	concOps[*[68]int],
	concOps[*[69]int],
	concOps[*[70]int],
	concOps[*[71]int],
	concOps[*[72]int],
	concOps[*[73]int],
	concOps[*[74]int],
	concOps[*[75]int],
	concOps[*[76]int],
	concOps[*[77]int],
	concOps[*[78]int],
	concOps[*[79]int],
	concOps[*[80]int],
	concOps[*[81]int],
	concOps[*[82]int],
	concOps[*[83]int],
	concOps[*[84]int],
	concOps[*[85]int],
	concOps[*[86]int],
	concOps[*[87]int],
	concOps[*[88]int],
	concOps[*[89]int],
	concOps[*[90]int],
	concOps[*[91]int],
	concOps[*[92]int],
	concOps[*[93]int],
	concOps[*[94]int],
	concOps[*[95]int],
	concOps[*[96]int],
	concOps[*[97]int],
	concOps[*[98]int],
	concOps[*[99]int],
	concOps[*[100]int],
	concOps[*[101]int],
	concOps[*[102]int],
	concOps[*[103]int],
	concOps[*[104]int],
	concOps[*[105]int],
	concOps[*[106]int],
	concOps[*[107]int],
	concOps[*[108]int],
	concOps[*[109]int],
	concOps[*[110]int],
	concOps[*[111]int],
	concOps[*[112]int],
	concOps[*[113]int],
	concOps[*[114]int],
	concOps[*[115]int],
	concOps[*[116]int],
	concOps[*[117]int],
	concOps[*[118]int],
	concOps[*[119]int],
	concOps[*[120]int],
	concOps[*[121]int],
	concOps[*[122]int],
	concOps[*[123]int],
	concOps[*[124]int],
	concOps[*[125]int],
	concOps[*[126]int],
	concOps[*[127]int],
	concOps[*[128]int],
	concOps[*[129]int],
	concOps[*[130]int],
	concOps[*[131]int],
	concOps[*[132]int],
	concOps[*[133]int],
	concOps[*[134]int],
	concOps[*[135]int],
	concOps[*[136]int],
	concOps[*[137]int],
	concOps[*[138]int],
	concOps[*[139]int],
	concOps[*[140]int],
	concOps[*[141]int],
	concOps[*[142]int],
	concOps[*[143]int],
	concOps[*[144]int],
	concOps[*[145]int],
	concOps[*[146]int],
	concOps[*[147]int],
	concOps[*[148]int],
	concOps[*[149]int],
	concOps[*[150]int],
	concOps[*[151]int],
	concOps[*[152]int],
	concOps[*[153]int],
	concOps[*[154]int],
	concOps[*[155]int],
	concOps[*[156]int],
	concOps[*[157]int],
	concOps[*[158]int],
	concOps[*[159]int],
	concOps[*[160]int],
	concOps[*[161]int],
	concOps[*[162]int],
	concOps[*[163]int],
	concOps[*[164]int],
	concOps[*[165]int],
	concOps[*[166]int],
	concOps[*[167]int],
	concOps[*[168]int],
	concOps[*[169]int],
	concOps[*[170]int],
	concOps[*[171]int],
	concOps[*[172]int],
	concOps[*[173]int],
	concOps[*[174]int],
	concOps[*[175]int],
	concOps[*[176]int],
	concOps[*[177]int],
	concOps[*[178]int],
	concOps[*[179]int],
	concOps[*[180]int],
	concOps[*[181]int],
	concOps[*[182]int],
	concOps[*[183]int],
	concOps[*[184]int],
	concOps[*[185]int],
	concOps[*[186]int],
	concOps[*[187]int],
	concOps[*[188]int],
	concOps[*[189]int],
	concOps[*[190]int],
	concOps[*[191]int],
	concOps[*[192]int],
	concOps[*[193]int],
	concOps[*[194]int],
	concOps[*[195]int],
	concOps[*[196]int],
	concOps[*[197]int],
	concOps[*[198]int],
	concOps[*[199]int],
	concOps[*[200]int],
	concOps[*[201]int],
	concOps[*[202]int],
	concOps[*[203]int],
	concOps[*[204]int],
	concOps[*[205]int],
	concOps[*[206]int],
	concOps[*[207]int],
	concOps[*[208]int],
	concOps[*[209]int],
	concOps[*[210]int],
	concOps[*[211]int],
	concOps[*[212]int],
	concOps[*[213]int],
	concOps[*[214]int],
	concOps[*[215]int],
	concOps[*[216]int],
	concOps[*[217]int],
	concOps[*[218]int],
	concOps[*[219]int],
	concOps[*[220]int],
	concOps[*[221]int],
	concOps[*[222]int],
	concOps[*[223]int],
	concOps[*[224]int],
	concOps[*[225]int],
	concOps[*[226]int],
	concOps[*[227]int],
	concOps[*[228]int],
	concOps[*[229]int],
	concOps[*[230]int],
	concOps[*[231]int],
	concOps[*[232]int],
	concOps[*[233]int],
	concOps[*[234]int],
	concOps[*[235]int],
	concOps[*[236]int],
	concOps[*[237]int],
	concOps[*[238]int],
	concOps[*[239]int],
	concOps[*[240]int],
	concOps[*[241]int],
	concOps[*[242]int],
	concOps[*[243]int],
	concOps[*[244]int],
	concOps[*[245]int],
	concOps[*[246]int],
	concOps[*[247]int],
	concOps[*[248]int],
	concOps[*[249]int],
	concOps[*[250]int],
	concOps[*[251]int],
	concOps[*[252]int],
	concOps[*[253]int],
	concOps[*[254]int],
	concOps[*[255]int],
	concOps[*[256]int],
	concOps[*[257]int],
	concOps[*[258]int],
	concOps[*[259]int],
	concOps[*[260]int],
	concOps[*[261]int],
	concOps[*[262]int],
	concOps[*[263]int],
	concOps[*[264]int],
	concOps[*[265]int],
	concOps[*[266]int],
	concOps[*[267]int],
	concOps[*[268]int],
	concOps[*[269]int],
	concOps[*[270]int],
	concOps[*[271]int],
	concOps[*[272]int],
	concOps[*[273]int],
	concOps[*[274]int],
	concOps[*[275]int],
	concOps[*[276]int],
	concOps[*[277]int],
	concOps[*[278]int],
	concOps[*[279]int],
	concOps[*[280]int],
	concOps[*[281]int],
	concOps[*[282]int],
	concOps[*[283]int],
	concOps[*[284]int],
	concOps[*[285]int],
	concOps[*[286]int],
	concOps[*[287]int],
	concOps[*[288]int],
	concOps[*[289]int],
	concOps[*[290]int],
	concOps[*[291]int],
	concOps[*[292]int],
	concOps[*[293]int],
	concOps[*[294]int],
	concOps[*[295]int],
	concOps[*[296]int],
	concOps[*[297]int],
	concOps[*[298]int],
	concOps[*[299]int],
	concOps[*[300]int],
	concOps[*[301]int],
	concOps[*[302]int],
	concOps[*[303]int],
	concOps[*[304]int],
	concOps[*[305]int],
	concOps[*[306]int],
	concOps[*[307]int],
	concOps[*[308]int],
	concOps[*[309]int],
	concOps[*[310]int],
	concOps[*[311]int],
	concOps[*[312]int],
	concOps[*[313]int],
	concOps[*[314]int],
	concOps[*[315]int],
	concOps[*[316]int],
	concOps[*[317]int],
	concOps[*[318]int],
	concOps[*[319]int],
	concOps[*[320]int],
	concOps[*[321]int],
	concOps[*[322]int],
	concOps[*[323]int],
	concOps[*[324]int],
	concOps[*[325]int],
	concOps[*[326]int],
	concOps[*[327]int],
	concOps[*[328]int],
	concOps[*[329]int],
	concOps[*[330]int],
	concOps[*[331]int],
	concOps[*[332]int],
	concOps[*[333]int],
	concOps[*[334]int],
	concOps[*[335]int],
	concOps[*[336]int],
	concOps[*[337]int],
	concOps[*[338]int],
	concOps[*[339]int],
	concOps[*[340]int],
	concOps[*[341]int],
	concOps[*[342]int],
	concOps[*[343]int],
	concOps[*[344]int],
	concOps[*[345]int],
	concOps[*[346]int],
	concOps[*[347]int],
	concOps[*[348]int],
	concOps[*[349]int],
	concOps[*[350]int],
	concOps[*[351]int],
	concOps[*[352]int],
	concOps[*[353]int],
	concOps[*[354]int],
	concOps[*[355]int],
	concOps[*[356]int],
	concOps[*[357]int],
	concOps[*[358]int],
	concOps[*[359]int],
	concOps[*[360]int],
	concOps[*[361]int],
	concOps[*[362]int],
	concOps[*[363]int],
	concOps[*[364]int],
	concOps[*[365]int],
	concOps[*[366]int],
	concOps[*[367]int],
	concOps[*[368]int],
	concOps[*[369]int],
	concOps[*[370]int],
	concOps[*[371]int],
	concOps[*[372]int],
	concOps[*[373]int],
	concOps[*[374]int],
	concOps[*[375]int],
	concOps[*[376]int],
	concOps[*[377]int],
	concOps[*[378]int],
	concOps[*[379]int],
	concOps[*[380]int],
	concOps[*[381]int],
	concOps[*[382]int],
	concOps[*[383]int],
	concOps[*[384]int],
	concOps[*[385]int],
	concOps[*[386]int],
	concOps[*[387]int],
	concOps[*[388]int],
	concOps[*[389]int],
	concOps[*[390]int],
	concOps[*[391]int],
	concOps[*[392]int],
	concOps[*[393]int],
	concOps[*[394]int],
	concOps[*[395]int],
	concOps[*[396]int],
	concOps[*[397]int],
	concOps[*[398]int],
	concOps[*[399]int],
	concOps[*[400]int],
	concOps[*[401]int],
	concOps[*[402]int],
	concOps[*[403]int],
	concOps[*[404]int],
	concOps[*[405]int],
	concOps[*[406]int],
	concOps[*[407]int],
	concOps[*[408]int],
	concOps[*[409]int],
	concOps[*[410]int],
	concOps[*[411]int],
	concOps[*[412]int],
	concOps[*[413]int],
	concOps[*[414]int],
	concOps[*[415]int],
	concOps[*[416]int],
	concOps[*[417]int],
	concOps[*[418]int],
	concOps[*[419]int],
	concOps[*[420]int],
	concOps[*[421]int],
	concOps[*[422]int],
	concOps[*[423]int],
	concOps[*[424]int],
	concOps[*[425]int],
	concOps[*[426]int],
	concOps[*[427]int],
	concOps[*[428]int],
	concOps[*[429]int],
	concOps[*[430]int],
	concOps[*[431]int],
	concOps[*[432]int],
	concOps[*[433]int],
	concOps[*[434]int],
	concOps[*[435]int],
	concOps[*[436]int],
	concOps[*[437]int],
	concOps[*[438]int],
	concOps[*[439]int],
	concOps[*[440]int],
	concOps[*[441]int],
	concOps[*[442]int],
	concOps[*[443]int],
	concOps[*[444]int],
	concOps[*[445]int],
	concOps[*[446]int],
	concOps[*[447]int],
	concOps[*[448]int],
	concOps[*[449]int],
	concOps[*[450]int],
	concOps[*[451]int],
	concOps[*[452]int],
	concOps[*[453]int],
	concOps[*[454]int],
	concOps[*[455]int],
	concOps[*[456]int],
	concOps[*[457]int],
	concOps[*[458]int],
	concOps[*[459]int],
	concOps[*[460]int],
	concOps[*[461]int],
	concOps[*[462]int],
	concOps[*[463]int],
	concOps[*[464]int],
	concOps[*[465]int],
	concOps[*[466]int],
	concOps[*[467]int],
	concOps[*[468]int],
	concOps[*[469]int],
	concOps[*[470]int],
	concOps[*[471]int],
	concOps[*[472]int],
	concOps[*[473]int],
	concOps[*[474]int],
	concOps[*[475]int],
	concOps[*[476]int],
	concOps[*[477]int],
	concOps[*[478]int],
	concOps[*[479]int],
	concOps[*[480]int],
	concOps[*[481]int],
	concOps[*[482]int],
	concOps[*[483]int],
	concOps[*[484]int],
	concOps[*[485]int],
	concOps[*[486]int],
	concOps[*[487]int],
	concOps[*[488]int],
	concOps[*[489]int],
	concOps[*[490]int],
	concOps[*[491]int],
	concOps[*[492]int],
	concOps[*[493]int],
	concOps[*[494]int],
	concOps[*[495]int],
	concOps[*[496]int],
	concOps[*[497]int],
	concOps[*[498]int],
	concOps[*[499]int],
	concOps[*[500]int],
	concOps[*[501]int],
	concOps[*[502]int],
	concOps[*[503]int],
	concOps[*[504]int],
	concOps[*[505]int],
	concOps[*[506]int],
	concOps[*[507]int],
	concOps[*[508]int],
	concOps[*[509]int],
	concOps[*[510]int],
	concOps[*[511]int],
}
