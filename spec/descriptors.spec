# Intel SDM vol. 2A, CPUID leaf 2: encoding of cache and TLB descriptors
# number, type (the manual's editions differ for some TLBs), and what the description states (see rules/descriptors.py)
00 General null
01 TLB instruction tlb 4k 4way 32entr
02 TLB instruction tlb 4m fully 2entr
03 TLB data tlb 4k 4way 64entr
04 TLB data tlb 4m 4way 8entr
05 TLB data tlb 1 4m 4way 32entr
06 Cache 1st instruction cache 8k 4way 32byte
08 Cache 1st instruction cache 16k 4way 32byte
09 Cache 1st instruction cache 32k 4way 64byte
0A Cache 1st data cache 8k 2way 32byte
0B TLB instruction tlb 4m 4way 4entr
0C Cache 1st data cache 16k 4way 32byte
0D Cache 1st data cache 16k 4way 64byte
0E Cache 1st data cache 24k 6way 64byte
1D Cache 2nd cache 128k 2way 64byte
21 Cache 2nd cache 256k 8way 64byte
22 Cache 3rd cache 512k 4way 64byte 2line
23 Cache 3rd cache 1m 8way 64byte 2line
24 Cache 2nd cache 1m 16way 64byte
25 Cache 3rd cache 2m 8way 64byte 2line
29 Cache 3rd cache 4m 8way 64byte 2line
2C Cache 1st data cache 32k 8way 64byte
30 Cache 1st instruction cache 32k 8way 64byte
40 Cache 2nd cache 2nd cache 3rd cache
41 Cache 2nd cache 128k 4way 32byte
42 Cache 2nd cache 256k 4way 32byte
43 Cache 2nd cache 512k 4way 32byte
44 Cache 2nd cache 1m 4way 32byte
45 Cache 2nd cache 2m 4way 32byte
46 Cache 3rd cache 4m 4way 64byte
47 Cache 3rd cache 8m 8way 64byte
48 Cache 2nd cache 3m 12way 64byte
49 Cache 3rd 4m 16way 64byte 2nd 4m 16way 64byte
4A Cache 3rd cache 6m 12way 64byte
4B Cache 3rd cache 8m 16way 64byte
4C Cache 3rd cache 12m 12way 64byte
4D Cache 3rd cache 16m 16way 64byte
4E Cache 2nd cache 6m 24way 64byte
4F TLB instruction tlb 4k 32entr
50 TLB instruction tlb 4k 2m 4m 64entr
51 TLB instruction tlb 4k 2m 4m 128entr
52 TLB instruction tlb 4k 2m 4m 256entr
55 TLB instruction tlb 2m 4m fully 7entr
56 TLB data tlb 0 4m 4way 16entr
57 TLB data tlb 0 4k 4way 16entr
59 TLB data tlb 0 4k fully 16entr
5A TLB data tlb 0 2m 4m 4way 32entr
5B TLB data tlb 4k 4m 64entr
5C TLB data tlb 4k 4m 128entr
5D TLB data tlb 4k 4m 256entr
60 Cache 1st data cache 16k 8way 64byte
61 TLB instruction tlb 4k fully 48entr
63 TLB data tlb 2m 4m 4way 32entr 1g 4way 4entr
64 TLB data tlb 4k 4way 512entr
66 Cache 1st data cache 8k 4way 64byte
67 Cache 1st data cache 16k 4way 64byte
68 Cache 1st data cache 32k 4way 64byte
6A Cache|TLB|DTLB utlb 4k 8way 64entr
6B Cache|TLB|DTLB dtlb 4k 8way 256entr
6C Cache|TLB|DTLB dtlb 2m 4m 8way 128entr
6D Cache|TLB|DTLB dtlb 1g fully 16entr
70 Cache trace cache 12k 8way
71 Cache trace cache 16k 8way
72 Cache trace cache 32k 8way
76 TLB instruction tlb 2m 4m fully 8entr
78 Cache 2nd cache 1m 4way 64byte
79 Cache 2nd cache 128k 8way 64byte 2line
7A Cache 2nd cache 256k 8way 64byte 2line
7B Cache 2nd cache 512k 8way 64byte 2line
7C Cache 2nd cache 1m 8way 64byte 2line
7D Cache 2nd cache 2m 8way 64byte
7F Cache 2nd cache 512k 2way 64byte
80 Cache 2nd cache 512k 8way 64byte
82 Cache 2nd cache 256k 8way 32byte
83 Cache 2nd cache 512k 8way 32byte
84 Cache 2nd cache 1m 8way 32byte
85 Cache 2nd cache 2m 8way 32byte
86 Cache 2nd cache 512k 4way 64byte
87 Cache 2nd cache 1m 8way 64byte
A0 DTLB|TLB dtlb 4k fully 32entr
B0 TLB instruction tlb 4k 4way 128entr
B1 TLB instruction tlb 2m 4way 8entr 4m 4way 4entr
B2 TLB instruction tlb 4k 4way 64entr
B3 TLB data tlb 4k 4way 128entr
B4 TLB data tlb 1 4k 4way 256entr
B5 TLB instruction tlb 4k 8way 64entr
B6 TLB instruction tlb 4k 8way 128entr
BA TLB data tlb 1 4k 4way 64entr
C0 TLB data tlb 4k 4m 4way 8entr
C1 STLB shared 2nd tlb 4k 2m 8way 1024entr
C2 DTLB|TLB dtlb [4k] 2m [4m] 4way 16entr
C3 STLB shared 2nd tlb 4k 2m 6way 1536entr 1g 4way 16entr
C4 DTLB|TLB dtlb 2m 4m 4way 32entr
CA STLB shared 2nd tlb 4k 4way 512entr
D0 Cache 3rd cache 512k 4way 64byte
D1 Cache 3rd cache 1m 4way 64byte
D2 Cache 3rd cache 2m 4way 64byte
D6 Cache 3rd cache 1m 8way 64byte
D7 Cache 3rd cache 2m 8way 64byte
D8 Cache 3rd cache 4m 8way 64byte
DC Cache 3rd cache 1.5m 12way 64byte
DD Cache 3rd cache 3m 12way 64byte
DE Cache 3rd cache 6m 12way 64byte
E2 Cache 3rd cache 2m 16way 64byte
E3 Cache 3rd cache 4m 16way 64byte
E4 Cache 3rd cache 8m 16way 64byte
EA Cache 3rd cache 12m 24way 64byte
EB Cache 3rd cache 18m 24way 64byte
EC Cache 3rd cache 24m 24way 64byte
F0 Prefetch 64byte prefetch
F1 Prefetch 128byte prefetch
FE General 2 tlb 18h tlb
FF General 2 cache 4 cache
