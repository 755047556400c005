# abbreviate terms: tools/abbr.sh C02 function...
cd /verif; (ulimit -v 8000000; SHORT=${SHORT:-6000} W=${W:-6000} REPO=${REPO:-/repo} timeout ${T:-300} python3-vt tools/p.py "$@" 2>&1) | sed -E 's/L1\{1\*tgrid\(1\*#1.0\)\},1\*len_tgrid,[01]/TG/g; s/1\*//g; s/stride\((n|str:1|none|-1)\)/SKIP/g; s/CNT\(len_frames\+-toff\(TG,#[0-9].[0-9]\)\+-tsep\(TG,#[0-9].[0-9]\),SKIP\)/CNT/g; s/L3\{S2\[CNT;len_tgrid\(TG\)\]\{EQ\(#3.0\+step\(#2.0\*SKIP\+toff\(TG,#2.1\)\)\+-step\(#2.0\*SKIP\+toff\(TG,#2.1\)\+tsep\(TG,#2.1\)\)\)\}\}/TIMES/g; s/len_frames/F/g; s/len_part/NP/g' | cut -c1-${C:-1200}
