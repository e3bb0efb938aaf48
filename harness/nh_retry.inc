static const unsigned long long nh_retry[] = {
3443741ULL,
4535893ULL,
6011206ULL,
7475739ULL,
8210919ULL,
8531629ULL,
9204885ULL,
10108410ULL,
12246715ULL,
15831806ULL,
16962461ULL,
18331780ULL,
21361052ULL,
21854402ULL,
24288042ULL,
24686540ULL,
25999848ULL,
27921406ULL,
1000000428002ULL,
1000001330881ULL,
1000003257712ULL,
1000003627053ULL,
1000006553186ULL,
1000006872899ULL,
1000007845168ULL,
1000009331079ULL,
1000013321669ULL,
1000014135598ULL,
1000014861892ULL,
1000015897466ULL,
1000016660628ULL,
1000017763576ULL,
1000017831134ULL,
1000017868243ULL,
1000017984900ULL,
1000020437989ULL,
1000021346172ULL,
1000025321102ULL,
1000026570414ULL,
1000026616579ULL,
1000028696651ULL,
1000029810128ULL,
2000000058115ULL,
2000000273760ULL,
2000005646243ULL,
2000007840920ULL,
2000014395335ULL,
2000014680311ULL,
2000015929736ULL,
2000017791767ULL,
2000019594228ULL,
2000021322775ULL,
2000023059534ULL,
2000023615903ULL,
2000026030993ULL,
2000026126219ULL,
2000027228385ULL,
2000028857779ULL,
2000029768314ULL,
2000030320312ULL,
};
static const unsigned long long nh_tight[] = {
7000000776300ULL,
7000000798016ULL,
7000000912992ULL,
7000001382928ULL,
7000001655045ULL,
7000001777900ULL,
7000002107482ULL,
7000002684532ULL,
7000002710889ULL,
7000002795055ULL,
7000002809977ULL,
7000003115656ULL,
7000003310418ULL,
7000004057953ULL,
7000004105911ULL,
7000004338362ULL,
7000004415906ULL,
7000005542895ULL,
7000005816729ULL,
7000007030754ULL,
7000007108050ULL,
7000008127526ULL,
7000008329485ULL,
7000009200608ULL,
7000009728063ULL,
7000010273466ULL,
7000011113355ULL,
7000011326196ULL,
7000011366065ULL,
7000011916933ULL,
7000011936448ULL,
7000013004463ULL,
7000013142463ULL,
7000013159109ULL,
7000013348357ULL,
7000013841207ULL,
7000013874088ULL,
7000014345652ULL,
7000014491584ULL,
7000014610212ULL,
7000014770789ULL,
7000014868140ULL,
7000015252570ULL,
7000016213395ULL,
7000016301075ULL,
7000016305155ULL,
7000016322884ULL,
7000017193101ULL,
8000000026891ULL,
8000000149033ULL,
8000000152197ULL,
8000000295513ULL,
8000002004707ULL,
8000002813513ULL,
8000002984033ULL,
8000003360665ULL,
8000003483997ULL,
8000003550497ULL,
8000004687384ULL,
8000004713921ULL,
8000006249783ULL,
8000006276395ULL,
8000006311078ULL,
8000007609590ULL,
8000007810089ULL,
8000008336671ULL,
8000008569213ULL,
8000009527879ULL,
8000009633076ULL,
8000009968648ULL,
8000010778261ULL,
8000010883274ULL,
8000011033882ULL,
8000011151026ULL,
8000011653086ULL,
8000011761348ULL,
8000012000220ULL,
8000012819454ULL,
8000015118203ULL,
8000015305217ULL,
};
