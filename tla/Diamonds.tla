------------------------------ MODULE Diamonds ------------------------------
(* Written by tools/mkdiamonds.py: <<n, a, ma, b, mb>> with a ma^2 + b mb^2 = 2^n, *)
(* a and b factored, ma and mb hexadecimal.                                *)
DiamondTable(name) ==
  CASE name = "full" -> <<
    <<3,<<<<5,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<3,<<>>,"1",<<<<7,1>>>>,"1">>,
    <<3,<<<<7,1>>>>,"1",<<>>,"1">>,
    <<4,<<<<13,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<4,<<>>,"3",<<<<7,1>>>>,"1">>,
    <<4,<<<<3,1>>,<<5,1>>>>,"1",<<>>,"1">>,
    <<5,<<<<3,1>>,<<5,1>>>>,"1",<<<<17,1>>>>,"1">>,
    <<5,<<>>,"5",<<<<7,1>>>>,"1">>,
    <<5,<<<<3,1>>>>,"1",<<<<29,1>>>>,"1">>,
    <<6,<<<<19,1>>>>,"1",<<<<3,2>>,<<5,1>>>>,"1">>,
    <<6,<<<<5,1>>,<<7,1>>>>,"1",<<<<29,1>>>>,"1">>,
    <<6,<<<<3,1>>>>,"3",<<<<37,1>>>>,"1">>,
    <<7,<<<<3,1>>,<<17,1>>>>,"1",<<<<7,1>>,<<11,1>>>>,"1">>,
    <<7,<<<<5,1>>>>,"5",<<<<3,1>>>>,"1">>,
    <<7,<<<<5,1>>,<<19,1>>>>,"1",<<<<3,1>>,<<11,1>>>>,"1">>,
    <<8,<<<<3,1>>,<<29,1>>>>,"1",<<>>,"d">>,
    <<8,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"1",<<>>,"5">>,
    <<8,<<<<19,1>>>>,"3",<<<<5,1>>,<<17,1>>>>,"1">>,
    <<9,<<<<3,1>>,<<29,1>>>>,"1",<<<<5,2>>,<<17,1>>>>,"1">>,
    <<9,<<<<13,1>>,<<29,1>>>>,"1",<<<<3,1>>,<<5,1>>>>,"3">>,
    <<9,<<<<17,1>>,<<19,1>>>>,"1",<<<<3,1>>,<<7,1>>>>,"3">>,
    <<10,<<<<11,1>>>>,"3",<<<<5,2>>,<<37,1>>>>,"1">>,
    <<10,<<<<5,2>>>>,"5",<<<<3,1>>,<<7,1>>,<<19,1>>>>,"1">>,
    <<10,<<>>,"d",<<<<3,2>>,<<5,1>>,<<19,1>>>>,"1">>,
    <<11,<<<<29,1>>>>,"7",<<<<3,1>>,<<11,1>>,<<19,1>>>>,"1">>,
    <<11,<<<<17,1>>>>,"7",<<<<3,1>>,<<5,1>>>>,"9">>,
    <<11,<<<<3,2>>,<<13,1>>,<<17,1>>>>,"1",<<<<59,1>>>>,"1">>,
    <<12,<<<<19,1>>,<<59,1>>>>,"1",<<<<7,1>>,<<17,1>>>>,"5">>,
    <<12,<<<<5,1>>,<<13,1>>,<<59,1>>>>,"1",<<<<29,1>>>>,"3">>,
    <<12,<<<<17,1>>,<<19,1>>>>,"1",<<<<7,1>>,<<11,1>>>>,"7">>,
    <<13,<<<<5,2>>,<<11,1>>,<<13,1>>>>,"1",<<<<3,1>>,<<19,1>>>>,"9">>,
    <<13,<<<<13,1>>>>,"3",<<<<17,1>>,<<19,1>>>>,"5">>,
    <<13,<<<<3,1>>,<<19,1>>>>,"9",<<<<11,1>>,<<13,1>>>>,"5">>,
    <<14,<<>>,"2f",<<<<5,2>>,<<7,1>>>>,"9">>,
    <<14,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"5",<<>>,"67">>,
    <<14,<<<<5,1>>,<<7,1>>>>,"d",<<<<29,1>>>>,"13">>,
    <<15,<<<<11,1>>,<<37,1>>>>,"7",<<<<3,1>>,<<5,2>>,<<19,1>>>>,"3">>,
    <<15,<<<<3,1>>,<<5,2>>,<<19,1>>>>,"3",<<<<11,1>>,<<37,1>>>>,"7">>,
    <<15,<<<<7,1>>,<<13,1>>,<<37,1>>>>,"3",<<<<5,1>>,<<17,1>>,<<29,1>>>>,"1">>,
    <<16,<<>>,"45",<<<<11,1>>,<<13,1>>,<<17,1>>>>,"5">>,
    <<16,<<<<3,1>>,<<7,1>>,<<29,1>>>>,"7",<<<<5,1>>,<<59,1>>>>,"b">>,
    <<16,<<<<19,1>>,<<37,1>>>>,"5",<<>>,"db">>,
    <<17,<<>>,"113",<<<<7,1>>>>,"59">>,
    <<17,<<<<3,1>>,<<7,1>>>>,"4f",<<<<11,1>>>>,"1">>,
    <<17,<<<<7,1>>,<<11,1>>>>,"13",<<<<3,1>>,<<5,2>>,<<17,1>>>>,"9">>,
    <<18,<<<<3,1>>,<<13,1>>,<<17,1>>>>,"13",<<>>,"97">>,
    <<18,<<>>,"1c1",<<<<7,1>>>>,"5d">>,
    <<18,<<<<3,1>>,<<7,1>>,<<59,1>>>>,"b",<<<<5,2>>>>,"43">>,
    <<19,<<<<13,1>>,<<59,1>>>>,"13",<<<<3,1>>,<<11,1>>,<<17,1>>>>,"15">>,
    <<19,<<<<11,1>>,<<29,1>>>>,"1b",<<<<17,1>>>>,"83">>,
    <<19,<<<<7,1>>,<<13,1>>,<<17,1>>>>,"d",<<<<5,1>>,<<11,1>>,<<59,1>>>>,"9">>,
    <<20,<<<<3,1>>,<<5,1>>,<<11,1>>>>,"1b",<<<<7,1>>,<<13,1>>>>,"65">>,
    <<20,<<<<3,1>>,<<5,1>>>>,"ab",<<>>,"30d">>,
    <<20,<<<<3,2>>,<<19,1>>>>,"15",<<<<5,1>>,<<17,1>>>>,"6b">>,
    <<21,<<<<3,1>>,<<13,1>>>>,"7b",<<<<7,1>>,<<11,1>>,<<37,1>>>>,"17">>,
    <<21,<<<<5,1>>,<<17,1>>>>,"99",<<<<7,1>>,<<29,1>>>>,"17">>,
    <<21,<<<<3,1>>>>,"25",<<<<5,1>>>>,"287">>,
    <<22,<<<<3,2>>,<<11,1>>,<<29,1>>>>,"23",<<>>,"337">>,
    <<22,<<<<11,1>>,<<29,1>>>>,"69",<<>>,"337">>,
    <<22,<<<<3,1>>,<<11,1>>,<<13,1>>>>,"59",<<<<5,1>>,<<19,1>>,<<29,1>>>>,"11">>,
    <<23,<<<<3,1>>,<<5,1>>>>,"2eb",<<<<13,1>>,<<29,1>>>>,"7">>,
    <<23,<<<<5,2>>,<<17,1>>>>,"29",<<<<3,1>>,<<29,1>>>>,"129">>,
    <<23,<<<<59,1>>>>,"179",<<<<3,2>>,<<37,1>>>>,"3">>,
    <<24,<<<<3,2>>>>,"83",<<<<7,1>>>>,"605">>,
    <<24,<<<<7,1>>>>,"605",<<>>,"189">>,
    <<24,<<>>,"189",<<<<7,1>>>>,"605">>,
    <<25,<<<<7,1>>,<<17,1>>>>,"213",<<<<29,1>>,<<37,1>>>>,"1">>,
    <<25,<<<<29,1>>,<<37,1>>>>,"1",<<<<3,2>>,<<7,1>>,<<17,1>>>>,"b1">>,
    <<25,<<>>,"144d",<<<<7,1>>>>,"3c7">>,
    <<26,<<<<59,1>>>>,"2c7",<<<<17,1>>,<<29,1>>>>,"113">>,
    <<26,<<<<3,2>>,<<5,1>>,<<11,1>>>>,"111",<<>>,"1579">>,
    <<26,<<<<3,1>>,<<29,1>>>>,"215",<<>>,"196f">>,
    <<27,<<<<5,1>>,<<13,1>>>>,"41f",<<<<7,1>>>>,"b9d">>,
    <<27,<<<<11,1>>>>,"d99",<<<<13,1>>>>,"10b">>,
    <<27,<<<<3,1>>,<<17,1>>,<<37,1>>>>,"ab",<<<<7,1>>,<<11,1>>,<<13,1>>>>,"119">>,
    <<28,<<<<7,1>>>>,"b5",<<<<3,2>>>>,"1553">>,
    <<28,<<<<3,2>>>>,"1553",<<<<7,1>>>>,"b5">>,
    <<28,<<<<19,1>>,<<29,1>>>>,"261",<<>>,"1f45">>,
    <<29,<<<<7,1>>,<<29,1>>>>,"369",<<<<13,1>>,<<17,1>>>>,"523">>,
    <<29,<<<<7,1>>>>,"2057",<<>>,"1d83">>,
    <<29,<<<<7,1>>>>,"2057",<<<<5,2>>>>,"5e7">>,
    <<30,<<<<3,2>>,<<5,1>>>>,"bfb",<<<<19,1>>>>,"16db">>,
    <<30,<<<<5,1>>,<<11,1>>,<<17,1>>>>,"2cd",<<>>,"5f21">>,
    <<30,<<<<5,1>>,<<11,1>>>>,"f89",<<>>,"37c5">>,
    <<31,<<<<5,1>>>>,"4e2b",<<<<3,1>>>>,"1b2f">>,
    <<31,<<<<17,1>>,<<37,1>>>>,"6cd",<<<<19,1>>>>,"de9">>,
    <<31,<<<<3,1>>>>,"1b2f",<<<<5,1>>>>,"4e2b">>,
    <<32,<<<<13,1>>,<<29,1>>>>,"3c3",<<<<19,1>>,<<37,1>>>>,"941">>,
    <<32,<<>>,"3673",<<<<5,2>>,<<11,1>>,<<13,1>>>>,"42f">>,
    <<32,<<<<7,1>>,<<17,1>>>>,"1773",<<>>,"a19">>,
    <<33,<<>>,"16253",<<<<7,1>>>>,"1c19">>,
    <<33,<<<<5,1>>>>,"1b1",<<<<3,1>>>>,"d103">>,
    <<33,<<<<7,1>>>>,"1c19",<<>>,"16253">>,
    <<34,<<>>,"1480f",<<<<5,1>>,<<59,1>>>>,"16e3">>,
    <<34,<<<<7,1>>,<<11,1>>,<<17,1>>>>,"baf",<<<<5,1>>,<<19,1>>,<<29,1>>>>,"581">>,
    <<34,<<<<3,1>>,<<5,2>>,<<37,1>>>>,"5b5",<<>>,"19e71">>,
    <<35,<<<<11,1>>>>,"7cbd",<<<<3,1>>,<<7,1>>>>,"81ad">>,
    <<35,<<<<5,1>>,<<7,1>>,<<37,1>>>>,"12f1",<<<<3,1>>,<<19,1>>>>,"205b">>,
    <<35,<<<<17,1>>>>,"4b07",<<<<3,1>>,<<5,1>>>>,"a909">>,
    <<36,<<<<7,1>>>>,"6aeb",<<>>,"3d827">>,
    <<36,<<<<13,1>>>>,"43bd",<<<<3,1>>>>,"23e25">>,
    <<36,<<<<7,1>>>>,"6aeb",<<<<3,2>>>>,"1480d">>,
    <<37,<<<<13,1>>,<<29,1>>>>,"434f",<<<<3,1>>,<<5,1>>>>,"a113">>,
    <<37,<<<<11,1>>>>,"17cad",<<<<3,2>>,<<13,1>>>>,"4193">>,
    <<37,<<<<7,1>>>>,"1979d",<<<<5,1>>,<<13,1>>>>,"77e1">>,
    <<38,<<<<3,2>>>>,"d56f",<<<<5,1>>,<<11,1>>>>,"1064f">>,
    <<38,<<<<3,1>>,<<19,1>>,<<29,1>>>>,"3153",<<<<11,1>>,<<17,1>>>>,"1e65">>,
    <<38,<<<<7,1>>>>,"2a167",<<<<29,1>>,<<37,1>>>>,"1ed5">>,
    <<39,<<>>,"8262b",<<<<7,1>>>>,"2f75f">>,
    <<39,<<<<5,1>>,<<11,1>>,<<19,1>>>>,"17fd",<<<<7,1>>,<<13,1>>,<<17,1>>>>,"46f3">>,
    <<39,<<<<7,1>>,<<13,1>>,<<17,1>>>>,"46f3",<<<<5,1>>,<<11,1>>,<<19,1>>>>,"17fd">>,
    <<40,<<<<5,1>>>>,"6e2d9",<<<<11,1>>>>,"14f9f">>,
    <<40,<<>>,"feff5",<<<<3,1>>,<<5,1>>>>,"5d83">>,
    <<40,<<<<11,1>>>>,"14f9f",<<<<5,1>>>>,"6e2d9">>,
    <<41,<<<<19,1>>>>,"4b1ff",<<<<13,1>>>>,"2ad31">>,
    <<41,<<<<5,1>>>>,"8843f",<<<<3,1>>>>,"70e33">>,
    <<41,<<<<17,1>>,<<37,1>>>>,"aac3",<<<<3,1>>,<<11,1>>,<<59,1>>>>,"5865">>,
    <<42,<<<<3,1>>,<<5,1>>,<<11,1>>,<<19,1>>>>,"83a1",<<>>,"df87f">>,
    <<42,<<<<3,1>>,<<5,2>>,<<13,1>>>>,"7661",<<>>,"1c8ea7">>,
    <<42,<<<<3,2>>,<<11,1>>>>,"33749",<<<<37,1>>>>,"d93">>,
    <<43,<<<<3,1>>,<<7,1>>,<<11,1>>,<<17,1>>>>,"b8df",<<<<19,1>>,<<59,1>>>>,"1bd">>,
    <<43,<<<<13,1>>,<<19,1>>>>,"1fd85",<<<<5,1>>,<<17,1>>,<<29,1>>>>,"a8a1">>,
    <<43,<<<<5,1>>,<<17,1>>,<<29,1>>>>,"a8a1",<<<<13,1>>,<<19,1>>>>,"1fd85">>,
    <<44,<<>>,"3733b9",<<<<7,1>>>>,"c3d75">>,
    <<44,<<<<7,1>>>>,"c3d75",<<>>,"3733b9">>,
    <<44,<<<<3,2>>,<<19,1>>>>,"1f7ad",<<<<5,1>>,<<17,1>>>>,"65b2d">>,
    <<45,<<>>,"f3d3d",<<<<7,1>>>>,"21b897">>,
    <<45,<<<<7,1>>>>,"21b897",<<>>,"f3d3d">>,
    <<45,<<<<5,1>>>>,"286429",<<<<3,1>>>>,"36715">>,
    <<46,<<<<13,1>>,<<59,1>>>>,"498c9",<<>>,"d4b49">>,
    <<46,<<<<7,1>>>>,"19f2f7",<<<<3,1>>,<<19,1>>>>,"e4f17">>,
    <<46,<<<<29,1>>>>,"16ea03",<<<<5,1>>,<<7,1>>>>,"5c01d">>,
    <<47,<<<<37,1>>>>,"1696c3",<<<<5,1>>,<<19,1>>,<<29,1>>>>,"23ec9">>,
    <<47,<<<<19,1>>>>,"1870bd",<<<<13,1>>>>,"28972d">>,
    <<47,<<<<17,1>>>>,"da879",<<<<3,1>>,<<5,1>>>>,"2c6b77">>,
    <<48,<<>>,"9c1f29",<<<<7,1>>>>,"4caedb">>,
    <<48,<<>>,"744a45",<<<<3,1>>,<<5,1>>>>,"3ae2b3">>,
    <<48,<<<<7,1>>>>,"4caedb",<<>>,"9c1f29">>,
    <<64,<<<<13,1>>>>,"11ddb4c9",<<<<3,1>>>>,"8f0bc591">>,
    <<64,<<<<7,1>>>>,"26e3ae1b",<<<<3,2>>>>,"4e2337a3">>,
    <<100,<<<<59,1>>>>,"73e99dcfe739",<<<<29,1>>>>,"5dee5b0eca4b">>,
    <<100,<<<<5,1>>>>,"14618259ad363",<<<<11,1>>>>,"d8c57d8394bb">>,
    <<158,<<>>,"538f62d08fa526ce48e7",<<<<3,1>>,<<5,1>>>>,"19091c3ee38b8cee9c41">>,
    <<158,<<<<3,1>>,<<17,1>>>>,"ea2a9460a379694eafb",<<<<5,2>>,<<13,1>>>>,"4194b457feec304e661">>,
    <<316,<<>>,"3b9fb8696d0b49a39981490e83eb10ae7d328c87",<<<<7,1>>>>,"8ca887dc2dfa37af8fd4b8804f5f72904e61635">>,
    <<316,<<<<5,1>>>>,"19b47641a8f5968baf9c1559db880fe00c78370b",<<<<11,1>>>>,"87c9ebf3163ed1c06090e1580d2d71deea70c5d">>,
    <<500,<<<<3,2>>>>,"d6d3b53c1acc791516973c3f330740eb5cf8c4de64dad6964bd2f46b834433",<<<<5,2>>,<<7,1>>>>,"3c2734fc43db18e3b37f6246c1eec7f7073c6360eb097a7655b51d49ef536f">>,
    <<500,<<<<5,1>>>>,"17c08201d1179fb9934ca26dfef67a8da819aa9a35d52a0a8dcfe644776213",<<<<11,1>>>>,"13455018b79b56c800d5b82d920c7158e0870b99d440cdf32045c9d85235ceb">>,
    <<631,<<<<3,2>>,<<11,1>>,<<29,1>>>>,"3430f1285848c7dd673a4c453e8e42e6b7b5e22e31721c7521b6225f678608e4952b95f1048879",<<<<17,1>>>>,"b6d3a901777f8389efece6c295d9a537b62f4a6d349298514ad313e6740cf559a3874f6bea04ad">>,
    <<631,<<<<17,1>>>>,"b6d3a901777f8389efece6c295d9a537b62f4a6d349298514ad313e6740cf559a3874f6bea04ad",<<<<3,2>>,<<11,1>>,<<29,1>>>>,"3430f1285848c7dd673a4c453e8e42e6b7b5e22e31721c7521b6225f678608e4952b95f1048879">>,
    <<632,<<>>,"cfa4b1a1b64e2d96fa5b0ab6b269bb6c947ffba865d1515dee36ebe9697961e7bcb3aef6fce8e13",<<<<3,1>>,<<5,2>>,<<29,1>>>>,"335ebfce58cfdda9d99e83a1d27b057fdbb1c5b0b38a5f515667325edfc0a0b1a25bbafb84d92d">>,
    <<632,<<<<7,1>>>>,"603bfb304710bec5d8bb2dd45a82c3cb5e142b5ef8cd8d9deb0dd1b659138b9ed3ce009f52f0285",<<<<3,2>>>>,"8dfb7b2744da6626d58a859f0a8a9be00b69d0f82a8c027c6a42751cd2ce8588b0ed10484d27fd">>>>
    [] name = "t17" -> <<
    <<3,<<>>,"1",<<<<7,1>>>>,"1">>,
    <<3,<<<<5,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<3,<<<<7,1>>>>,"1",<<>>,"1">>,
    <<3,<<<<3,1>>>>,"1",<<<<5,1>>>>,"1">>,
    <<4,<<<<7,1>>>>,"1",<<<<3,2>>>>,"1">>,
    <<4,<<>>,"1",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<4,<<<<3,1>>>>,"1",<<<<13,1>>>>,"1">>,
    <<4,<<>>,"3",<<<<7,1>>>>,"1">>,
    <<4,<<<<3,1>>,<<5,1>>>>,"1",<<>>,"1">>,
    <<4,<<<<13,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<4,<<<<3,2>>>>,"1",<<<<7,1>>>>,"1">>,
    <<4,<<<<5,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<5,<<<<17,1>>>>,"1",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<5,<<<<5,1>>>>,"1",<<<<3,1>>>>,"3">>,
    <<5,<<<<3,1>>,<<5,1>>>>,"1",<<<<17,1>>>>,"1">>,
    <<5,<<<<3,1>>>>,"3",<<<<5,1>>>>,"1">>,
    <<5,<<<<3,1>>,<<7,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<5,<<<<7,1>>>>,"1",<<>>,"5">>,
    <<5,<<<<7,1>>>>,"1",<<<<5,2>>>>,"1">>,
    <<5,<<<<11,1>>>>,"1",<<<<3,1>>,<<7,1>>>>,"1">>,
    <<6,<<<<3,2>>,<<7,1>>>>,"1",<<>>,"1">>,
    <<6,<<<<3,1>>,<<13,1>>>>,"1",<<>>,"5">>,
    <<6,<<<<5,1>>,<<11,1>>>>,"1",<<>>,"3">>,
    <<6,<<>>,"3",<<<<5,1>>,<<11,1>>>>,"1">>,
    <<6,<<<<3,1>>,<<5,1>>>>,"1",<<>>,"7">>,
    <<6,<<>>,"5",<<<<3,1>>,<<13,1>>>>,"1">>,
    <<6,<<>>,"7",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<6,<<<<7,1>>>>,"3",<<>>,"1">>,
    <<7,<<<<13,1>>>>,"3",<<<<11,1>>>>,"1">>,
    <<7,<<<<5,1>>,<<13,1>>>>,"1",<<<<7,1>>>>,"3">>,
    <<7,<<<<7,1>>>>,"1",<<>>,"b">>,
    <<7,<<<<7,1>>,<<17,1>>>>,"1",<<>>,"3">>,
    <<7,<<<<3,2>>,<<13,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<7,<<<<3,1>>,<<17,1>>>>,"1",<<<<7,1>>,<<11,1>>>>,"1">>,
    <<7,<<>>,"b",<<<<7,1>>>>,"1">>,
    <<7,<<<<5,1>>,<<13,1>>>>,"1",<<<<3,2>>,<<7,1>>>>,"1">>,
    <<8,<<>>,"1",<<<<3,1>>,<<5,1>>,<<17,1>>>>,"1">>,
    <<8,<<<<3,2>>>>,"3",<<<<5,2>>,<<7,1>>>>,"1">>,
    <<8,<<>>,"5",<<<<3,1>>,<<7,1>>,<<11,1>>>>,"1">>,
    <<8,<<<<11,1>>>>,"1",<<<<5,1>>>>,"7">>,
    <<8,<<<<7,1>>,<<13,1>>>>,"1",<<<<3,1>>,<<5,1>>,<<11,1>>>>,"1">>,
    <<8,<<<<5,2>>>>,"1",<<<<3,1>>,<<7,1>>,<<11,1>>>>,"1">>,
    <<8,<<<<3,2>>>>,"3",<<<<7,1>>>>,"5">>,
    <<8,<<<<7,1>>>>,"5",<<>>,"9">>,
    <<9,<<<<17,1>>>>,"1",<<<<5,1>>,<<11,1>>>>,"3">>,
    <<9,<<<<17,1>>>>,"1",<<<<3,2>>,<<5,1>>,<<11,1>>>>,"1">>,
    <<9,<<<<11,1>>,<<17,1>>>>,"1",<<<<5,2>>,<<13,1>>>>,"1">>,
    <<9,<<<<5,2>>,<<13,1>>>>,"1",<<<<11,1>>,<<17,1>>>>,"1">>,
    <<9,<<<<13,1>>>>,"5",<<<<11,1>>,<<17,1>>>>,"1">>,
    <<9,<<<<11,1>>,<<17,1>>>>,"1",<<<<13,1>>>>,"5">>,
    <<9,<<<<7,1>>>>,"7",<<>>,"d">>,
    <<9,<<<<3,2>>,<<5,1>>,<<11,1>>>>,"1",<<<<17,1>>>>,"1">>,
    <<10,<<<<3,1>>,<<5,2>>,<<13,1>>>>,"1",<<>>,"7">>,
    <<10,<<>>,"17",<<<<3,2>>,<<5,1>>,<<11,1>>>>,"1">>,
    <<10,<<<<5,1>>,<<7,1>>,<<17,1>>>>,"1",<<<<3,1>>,<<11,1>>,<<13,1>>>>,"1">>,
    <<10,<<>>,"1f",<<<<7,1>>>>,"3">>,
    <<10,<<>>,"7",<<<<3,1>>,<<13,1>>>>,"5">>,
    <<10,<<<<3,1>>,<<5,1>>>>,"7",<<>>,"11">>,
    <<10,<<<<5,1>>,<<11,1>>>>,"3",<<>>,"17">>,
    <<10,<<>>,"17",<<<<5,1>>,<<11,1>>>>,"3">>,
    <<11,<<<<17,1>>>>,"7",<<<<3,1>>,<<5,1>>>>,"9">>,
    <<11,<<<<3,1>>,<<7,1>>>>,"3",<<<<11,1>>>>,"d">>,
    <<11,<<<<7,1>>>>,"11",<<>>,"5">>,
    <<11,<<>>,"5",<<<<7,1>>>>,"11">>,
    <<11,<<<<11,1>>>>,"d",<<<<3,1>>,<<7,1>>>>,"3">>,
    <<11,<<<<5,2>>>>,"1",<<<<7,1>>>>,"11">>,
    <<11,<<<<5,1>>>>,"13",<<<<3,1>>>>,"9">>,
    <<11,<<<<3,1>>,<<5,1>>>>,"9",<<<<17,1>>>>,"7">>,
    <<12,<<<<5,2>>>>,"b",<<<<3,2>>,<<7,1>>,<<17,1>>>>,"1">>,
    <<12,<<>>,"35",<<<<11,1>>,<<13,1>>>>,"3">>,
    <<12,<<>>,"37",<<<<3,2>>,<<7,1>>,<<17,1>>>>,"1">>,
    <<12,<<<<11,1>>>>,"13",<<<<5,1>>>>,"5">>,
    <<12,<<<<11,1>>,<<13,1>>>>,"3",<<>>,"35">>,
    <<12,<<<<5,2>>>>,"b",<<<<7,1>>,<<17,1>>>>,"3">>,
    <<12,<<>>,"37",<<<<7,1>>,<<17,1>>>>,"3">>,
    <<12,<<<<7,1>>>>,"b",<<>>,"39">>,
    <<13,<<<<3,1>>>>,"2b",<<<<5,1>>>>,"17">>,
    <<13,<<<<5,1>>>>,"17",<<<<3,1>>>>,"2b">>,
    <<13,<<<<7,1>>>>,"17",<<>>,"43">>,
    <<13,<<>>,"43",<<<<7,1>>>>,"17">>,
    <<14,<<<<3,1>>,<<5,1>>>>,"21",<<>>,"7">>,
    <<14,<<>>,"2f",<<<<3,2>>,<<5,2>>,<<7,1>>>>,"3">>,
    <<14,<<<<5,1>>,<<11,1>>>>,"7",<<<<3,2>>>>,"27">>,
    <<14,<<<<3,1>>,<<17,1>>>>,"3",<<<<5,2>>,<<13,1>>>>,"7">>,
    <<14,<<>>,"7",<<<<3,1>>,<<5,1>>>>,"21">>,
    <<14,<<>>,"75",<<<<5,1>>,<<11,1>>>>,"7">>,
    <<14,<<>>,"7f",<<<<3,1>>,<<5,1>>,<<17,1>>>>,"1">>,
    <<14,<<<<3,2>>,<<7,1>>>>,"f",<<>>,"2f">>,
    <<15,<<>>,"b5",<<<<7,1>>>>,"1">>,
    <<15,<<<<3,1>>>>,"4f",<<<<5,1>>>>,"35">>,
    <<15,<<<<5,1>>>>,"35",<<<<3,1>>>>,"4f">>,
    <<15,<<<<7,1>>>>,"1",<<>>,"b5">>,
    <<16,<<<<7,1>>>>,"5b",<<<<3,2>>>>,"1d">>,
    <<16,<<>>,"57",<<<<7,1>>>>,"5b">>,
    <<16,<<<<5,1>>,<<11,1>>,<<17,1>>>>,"3",<<>>,"ef">>,
    <<16,<<<<7,1>>>>,"5b",<<>>,"57">>,
    <<16,<<<<11,1>>,<<13,1>>,<<17,1>>>>,"5",<<<<3,2>>>>,"17">>,
    <<16,<<<<3,1>>>>,"1",<<<<13,1>>>>,"47">>,
    <<16,<<<<11,1>>>>,"29",<<<<5,1>>>>,"61">>,
    <<16,<<<<5,1>>>>,"61",<<<<11,1>>>>,"29">>,
    <<17,<<<<7,1>>,<<11,1>>>>,"13",<<<<3,1>>,<<5,2>>,<<17,1>>>>,"9">>,
    <<17,<<<<11,1>>>>,"55",<<<<13,1>>>>,"3f">>,
    <<17,<<<<5,2>>>>,"37",<<<<7,1>>>>,"59">>,
    <<17,<<<<11,1>>>>,"1",<<<<3,1>>,<<7,1>>>>,"4f">>,
    <<17,<<<<3,1>>,<<17,1>>>>,"2d",<<<<7,1>>,<<11,1>>>>,"13">>,
    <<17,<<<<3,2>>,<<13,1>>>>,"15",<<<<11,1>>>>,"55">>,
    <<17,<<<<17,1>>>>,"47",<<<<3,1>>,<<5,1>>>>,"37">>,
    <<17,<<<<7,1>>,<<17,1>>>>,"17",<<<<3,2>>>>,"57">>>>
    [] name = "t20" -> <<
    <<3,<<<<7,1>>>>,"1",<<>>,"1">>,
    <<3,<<<<5,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<3,<<>>,"1",<<<<7,1>>>>,"1">>,
    <<3,<<<<3,1>>>>,"1",<<<<5,1>>>>,"1">>,
    <<4,<<<<7,1>>>>,"1",<<>>,"3">>,
    <<4,<<>>,"3",<<<<7,1>>>>,"1">>,
    <<4,<<<<5,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<4,<<<<3,2>>>>,"1",<<<<7,1>>>>,"1">>,
    <<4,<<<<13,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<4,<<>>,"1",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<4,<<<<7,1>>>>,"1",<<<<3,2>>>>,"1">>,
    <<4,<<<<3,1>>>>,"1",<<<<13,1>>>>,"1">>,
    <<5,<<>>,"5",<<<<7,1>>>>,"1">>,
    <<5,<<<<11,1>>>>,"1",<<<<3,1>>,<<7,1>>>>,"1">>,
    <<5,<<<<3,1>>,<<7,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<5,<<<<23,1>>>>,"1",<<<<3,2>>>>,"1">>,
    <<5,<<<<5,1>>>>,"1",<<<<3,1>>>>,"3">>,
    <<5,<<<<23,1>>>>,"1",<<>>,"3">>,
    <<5,<<<<7,1>>>>,"1",<<>>,"5">>,
    <<5,<<<<3,1>>>>,"3",<<<<5,1>>>>,"1">>,
    <<6,<<<<3,2>>,<<7,1>>>>,"1",<<>>,"1">>,
    <<6,<<<<3,1>>,<<5,1>>>>,"1",<<>>,"7">>,
    <<6,<<<<3,1>>,<<5,1>>>>,"1",<<<<7,2>>>>,"1">>,
    <<6,<<>>,"1",<<<<7,1>>>>,"3">>,
    <<6,<<<<7,1>>>>,"3",<<>>,"1">>,
    <<6,<<<<7,2>>>>,"1",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<6,<<<<5,1>>,<<11,1>>>>,"1",<<>>,"3">>,
    <<6,<<>>,"1",<<<<3,2>>,<<7,1>>>>,"1">>,
    <<7,<<<<11,1>>>>,"1",<<<<13,1>>>>,"3">>,
    <<7,<<<<13,1>>>>,"1",<<<<5,1>>,<<23,1>>>>,"1">>,
    <<7,<<>>,"b",<<<<7,1>>>>,"1">>,
    <<7,<<<<7,1>>>>,"1",<<>>,"b">>,
    <<7,<<<<3,1>>>>,"1",<<<<5,1>>>>,"5">>,
    <<7,<<<<23,1>>>>,"1",<<<<3,1>>,<<5,1>>,<<7,1>>>>,"1">>,
    <<7,<<<<5,1>>,<<13,1>>>>,"1",<<<<3,2>>,<<7,1>>>>,"1">>,
    <<7,<<<<5,1>>,<<13,1>>>>,"1",<<<<7,1>>>>,"3">>,
    <<8,<<<<5,1>>,<<7,2>>>>,"1",<<<<11,1>>>>,"1">>,
    <<8,<<>>,"7",<<<<3,2>>,<<23,1>>>>,"1">>,
    <<8,<<<<3,2>>>>,"3",<<<<7,1>>>>,"5">>,
    <<8,<<>>,"9",<<<<7,1>>>>,"5">>,
    <<8,<<<<11,1>>>>,"1",<<<<5,1>>>>,"7">>,
    <<8,<<<<7,2>>>>,"1",<<<<3,2>>,<<23,1>>>>,"1">>,
    <<8,<<<<5,1>>>>,"7",<<<<11,1>>>>,"1">>,
    <<8,<<<<11,1>>,<<23,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<9,<<<<13,2>>>>,"1",<<<<7,1>>>>,"7">>,
    <<9,<<<<7,1>>>>,"7",<<>>,"d">>,
    <<9,<<<<5,1>>>>,"1",<<<<3,1>>>>,"d">>,
    <<9,<<<<3,1>>,<<13,2>>>>,"1",<<<<5,1>>>>,"1">>,
    <<9,<<>>,"d",<<<<7,1>>>>,"7">>,
    <<9,<<<<3,1>>,<<13,1>>>>,"3",<<<<7,1>>,<<23,1>>>>,"1">>,
    <<9,<<<<5,1>>>>,"1",<<<<3,1>>,<<13,2>>>>,"1">>,
    <<9,<<<<3,1>>>>,"d",<<<<5,1>>>>,"1">>,
    <<10,<<<<3,1>>,<<5,1>>>>,"7",<<>>,"11">>,
    <<10,<<<<7,1>>,<<11,1>>,<<13,1>>>>,"1",<<<<23,1>>>>,"1">>,
    <<10,<<<<3,1>>,<<13,1>>>>,"5",<<>>,"7">>,
    <<10,<<<<3,1>>,<<13,1>>>>,"5",<<<<7,2>>>>,"1">>,
    <<10,<<>>,"11",<<<<3,1>>,<<5,1>>>>,"7">>,
    <<10,<<<<23,1>>>>,"1",<<<<7,1>>,<<11,1>>,<<13,1>>>>,"1">>,
    <<10,<<<<3,2>>,<<7,1>>>>,"1",<<>>,"1f">>,
    <<10,<<<<3,2>>,<<5,1>>,<<11,1>>>>,"1",<<>>,"17">>,
    <<11,<<<<5,1>>>>,"13",<<<<3,1>>>>,"9">>,
    <<11,<<<<3,2>>>>,"f",<<<<23,1>>>>,"1">>,
    <<11,<<>>,"2d",<<<<23,1>>>>,"1">>,
    <<11,<<<<23,1>>>>,"1",<<<<3,2>>>>,"f">>,
    <<11,<<<<11,1>>,<<13,2>>>>,"1",<<<<3,1>>,<<7,1>>>>,"3">>,
    <<11,<<<<11,1>>>>,"d",<<<<3,1>>,<<7,1>>>>,"3">>,
    <<11,<<<<7,1>>>>,"11",<<>>,"5">>,
    <<11,<<>>,"5",<<<<7,1>>>>,"11">>,
    <<12,<<<<3,1>>,<<5,1>>>>,"5",<<>>,"3d">>,
    <<12,<<>>,"35",<<<<11,1>>,<<13,1>>>>,"3">>,
    <<12,<<<<3,2>>>>,"11",<<<<5,1>>,<<13,1>>,<<23,1>>>>,"1">>,
    <<12,<<<<5,1>>,<<7,1>>,<<13,1>>>>,"3",<<>>,"1">>,
    <<12,<<<<7,1>>>>,"b",<<<<3,2>>>>,"13">>,
    <<12,<<<<7,1>>>>,"b",<<>>,"39">>,
    <<12,<<>>,"29",<<<<3,1>>,<<5,1>>,<<7,1>>,<<23,1>>>>,"1">>,
    <<12,<<<<11,1>>,<<13,1>>>>,"3",<<>>,"35">>,
    <<13,<<<<5,1>>,<<7,1>>>>,"d",<<<<3,2>>,<<11,1>>,<<23,1>>>>,"1">>,
    <<13,<<<<3,2>>,<<11,1>>,<<23,1>>>>,"1",<<<<5,1>>,<<7,1>>>>,"d">>,
    <<13,<<<<11,1>>,<<23,1>>>>,"3",<<<<5,1>>,<<7,1>>>>,"d">>,
    <<13,<<<<5,1>>>>,"17",<<<<3,1>>>>,"2b">>,
    <<13,<<<<3,1>>>>,"2b",<<<<5,1>>>>,"17">>,
    <<13,<<>>,"43",<<<<7,1>>>>,"17">>,
    <<13,<<<<5,1>>,<<7,1>>>>,"d",<<<<11,1>>,<<23,1>>>>,"3">>,
    <<13,<<<<7,1>>>>,"17",<<>>,"43">>,
    <<14,<<>>,"2f",<<<<3,2>>,<<7,1>>>>,"f">>,
    <<14,<<<<5,1>>,<<7,2>>,<<11,1>>>>,"1",<<>>,"75">>,
    <<14,<<<<3,2>>,<<13,2>>>>,"3",<<<<5,1>>,<<11,1>>>>,"7">>,
    <<14,<<<<3,1>>,<<11,1>>,<<23,1>>>>,"1",<<>>,"7d">>,
    <<14,<<<<5,1>>,<<7,2>>,<<11,1>>>>,"1",<<<<3,2>>>>,"27">>,
    <<14,<<<<3,2>>>>,"27",<<<<5,1>>,<<7,2>>,<<11,1>>>>,"1">>,
    <<14,<<>>,"75",<<<<5,1>>,<<11,1>>>>,"7">>,
    <<14,<<<<3,2>>,<<7,1>>>>,"f",<<>>,"2f">>,
    <<15,<<>>,"b5",<<<<7,1>>>>,"1">>,
    <<15,<<<<5,1>>>>,"35",<<<<3,1>>>>,"4f">>,
    <<15,<<<<3,1>>>>,"4f",<<<<5,1>>>>,"35">>,
    <<15,<<<<7,1>>>>,"1",<<>>,"b5">>,
    <<16,<<<<11,1>>>>,"29",<<<<5,1>>>>,"61">>,
    <<16,<<<<7,1>>,<<13,2>>>>,"7",<<>>,"57">>,
    <<16,<<<<3,2>>>>,"1d",<<<<7,1>>,<<13,2>>>>,"7">>,
    <<16,<<>>,"fb",<<<<3,1>>,<<5,1>>>>,"d">>,
    <<16,<<<<3,2>>>>,"1d",<<<<7,1>>>>,"5b">>,
    <<16,<<>>,"57",<<<<7,1>>>>,"5b">>,
    <<16,<<>>,"57",<<<<7,1>>,<<13,2>>>>,"7">>,
    <<16,<<<<3,1>>>>,"1",<<<<13,1>>>>,"47">>,
    <<17,<<<<11,1>>>>,"55",<<<<3,2>>,<<13,1>>>>,"15">>,
    <<17,<<<<3,1>>>>,"5d",<<<<5,1>>>>,"91">>,
    <<17,<<<<23,1>>>>,"47",<<>>,"7b">>,
    <<17,<<<<7,1>>>>,"59",<<>>,"113">>,
    <<17,<<<<11,1>>>>,"55",<<<<7,2>>,<<13,1>>>>,"9">>,
    <<17,<<<<3,2>>>>,"29",<<<<23,1>>>>,"47">>,
    <<17,<<<<13,1>>>>,"3f",<<<<11,1>>>>,"55">>,
    <<17,<<<<7,1>>>>,"63",<<<<5,1>>,<<13,1>>>>,"1f">>,
    <<18,<<<<3,1>>,<<13,1>>>>,"23",<<>>,"1cf">>,
    <<18,<<<<3,1>>,<<7,2>>,<<13,1>>>>,"5",<<>>,"1cf">>,
    <<18,<<<<3,2>>,<<5,1>>,<<11,1>>>>,"17",<<>>,"11">>,
    <<18,<<>>,"1c1",<<<<3,2>>,<<7,1>>>>,"1f">>,
    <<18,<<>>,"df",<<<<3,1>>,<<5,1>>>>,"77">>,
    <<18,<<<<3,1>>,<<5,1>>>>,"77",<<>>,"df">>,
    <<18,<<<<5,1>>,<<11,1>>>>,"45",<<>>,"11">>,
    <<18,<<<<3,2>>,<<7,1>>>>,"1f",<<>>,"1c1">>,
    <<19,<<>>,"65",<<<<7,1>>>>,"10f">>,
    <<19,<<<<5,1>>>>,"43",<<<<3,1>>>>,"199">>,
    <<19,<<<<3,1>>>>,"199",<<<<5,1>>>>,"43">>,
    <<19,<<<<7,1>>>>,"10f",<<>>,"65">>,
    <<20,<<<<3,2>>,<<23,1>>>>,"f",<<>>,"3e9">>,
    <<20,<<<<3,1>>>>,"1cb",<<<<13,1>>>>,"b3">>,
    <<20,<<<<3,2>>>>,"14d",<<<<7,1>>>>,"55">>,
    <<20,<<<<3,2>>,<<23,1>>>>,"f",<<<<13,2>>>>,"4d">>,
    <<20,<<<<5,1>>>>,"173",<<<<11,1>>>>,"b5">>,
    <<20,<<<<13,1>>>>,"b3",<<<<3,1>>>>,"1cb">>,
    <<20,<<<<11,1>>,<<23,1>>>>,"3d",<<<<3,1>>,<<7,2>>>>,"1b">>,
    <<20,<<<<23,1>>>>,"2d",<<>>,"3e9">>>>
    [] name = "p60" -> <<
    <<3,<<<<3,1>>>>,"1",<<<<5,1>>>>,"1">>,
    <<3,<<<<7,1>>>>,"1",<<>>,"1">>,
    <<3,<<>>,"1",<<<<7,1>>>>,"1">>,
    <<3,<<<<5,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<4,<<<<11,1>>>>,"1",<<<<5,1>>>>,"1">>,
    <<4,<<>>,"1",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<4,<<<<7,1>>>>,"1",<<<<3,2>>>>,"1">>,
    <<4,<<>>,"3",<<<<7,1>>>>,"1">>,
    <<4,<<<<3,1>>>>,"1",<<<<13,1>>>>,"1">>,
    <<4,<<<<13,1>>>>,"1",<<<<3,1>>>>,"1">>,
    <<5,<<<<3,1>>,<<7,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<5,<<<<3,1>>>>,"3",<<<<5,1>>>>,"1">>,
    <<5,<<<<11,1>>>>,"1",<<<<3,1>>,<<7,1>>>>,"1">>,
    <<5,<<>>,"5",<<<<7,1>>>>,"1">>,
    <<5,<<<<7,1>>>>,"1",<<>>,"5">>,
    <<5,<<<<5,1>>>>,"1",<<<<3,1>>>>,"3">>,
    <<6,<<<<5,1>>,<<11,1>>>>,"1",<<>>,"3">>,
    <<6,<<<<7,1>>>>,"3",<<>>,"1">>,
    <<6,<<<<3,1>>,<<13,1>>>>,"1",<<>>,"5">>,
    <<6,<<>>,"3",<<<<5,1>>,<<11,1>>>>,"1">>,
    <<6,<<>>,"5",<<<<3,1>>,<<13,1>>>>,"1">>,
    <<6,<<>>,"7",<<<<3,1>>,<<5,1>>>>,"1">>,
    <<7,<<<<3,2>>,<<13,1>>>>,"1",<<<<11,1>>>>,"1">>,
    <<7,<<<<3,1>>>>,"1",<<<<5,1>>>>,"5">>,
    <<7,<<<<13,1>>>>,"3",<<<<11,1>>>>,"1">>,
    <<7,<<<<11,1>>>>,"1",<<<<3,2>>,<<13,1>>>>,"1">>,
    <<7,<<<<7,1>>>>,"3",<<<<5,1>>,<<13,1>>>>,"1">>,
    <<7,<<<<3,2>>,<<7,1>>>>,"1",<<<<5,1>>,<<13,1>>>>,"1">>,
    <<8,<<<<11,1>>>>,"1",<<<<5,1>>>>,"7">>,
    <<8,<<<<3,1>>,<<5,1>>,<<11,1>>>>,"1",<<<<7,1>>,<<13,1>>>>,"1">>,
    <<8,<<>>,"5",<<<<3,1>>,<<7,1>>,<<11,1>>>>,"1">>,
    <<8,<<<<7,1>>>>,"5",<<<<3,2>>>>,"3">>,
    <<8,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"1",<<>>,"5">>,
    <<8,<<<<3,1>>>>,"9",<<<<13,1>>>>,"1">>,
    <<9,<<<<7,1>>>>,"7",<<>>,"d">>,
    <<9,<<>>,"d",<<<<7,1>>>>,"7">>,
    <<9,<<<<5,1>>>>,"1",<<<<3,1>>>>,"d">>,
    <<9,<<<<3,1>>>>,"d",<<<<5,1>>>>,"1">>,
    <<10,<<<<3,2>>,<<5,1>>,<<11,1>>>>,"1",<<>>,"17">>,
    <<10,<<<<5,1>>,<<11,1>>>>,"3",<<>>,"17">>,
    <<10,<<>>,"17",<<<<3,2>>,<<5,1>>,<<11,1>>>>,"1">>,
    <<10,<<>>,"7",<<<<3,1>>,<<13,1>>>>,"5">>,
    <<10,<<<<3,2>>,<<7,1>>>>,"1",<<>>,"1f">>,
    <<10,<<>>,"1f",<<<<7,1>>>>,"3">>,
    <<11,<<<<5,1>>>>,"13",<<<<3,1>>>>,"9">>,
    <<11,<<<<7,1>>>>,"11",<<>>,"5">>,
    <<11,<<>>,"5",<<<<7,1>>>>,"11">>,
    <<11,<<<<11,1>>>>,"d",<<<<3,1>>,<<7,1>>>>,"3">>,
    <<11,<<<<3,1>>>>,"9",<<<<5,1>>>>,"13">>,
    <<11,<<<<3,1>>,<<7,1>>>>,"3",<<<<11,1>>>>,"d">>,
    <<12,<<>>,"1",<<<<5,1>>,<<7,1>>,<<13,1>>>>,"3">>,
    <<12,<<>>,"39",<<<<7,1>>>>,"b">>,
    <<12,<<<<11,1>>>>,"13",<<<<5,1>>>>,"5">>,
    <<12,<<>>,"35",<<<<3,2>>,<<11,1>>,<<13,1>>>>,"1">>,
    <<12,<<<<3,1>>,<<5,1>>>>,"5",<<>>,"3d">>,
    <<12,<<<<3,2>>>>,"13",<<<<7,1>>>>,"b">>,
    <<13,<<<<3,1>>>>,"2b",<<<<5,1>>>>,"17">>,
    <<13,<<<<5,1>>>>,"17",<<<<3,1>>>>,"2b">>,
    <<13,<<<<7,1>>>>,"17",<<>>,"43">>,
    <<13,<<>>,"43",<<<<7,1>>>>,"17">>,
    <<14,<<<<3,1>>,<<5,1>>>>,"21",<<>>,"7">>,
    <<14,<<<<3,2>>,<<7,1>>>>,"f",<<>>,"2f">>,
    <<14,<<>>,"75",<<<<5,1>>,<<11,1>>>>,"7">>,
    <<14,<<<<3,2>>>>,"27",<<<<5,1>>,<<11,1>>>>,"7">>,
    <<14,<<<<5,1>>,<<11,1>>>>,"7",<<<<3,2>>>>,"27">>,
    <<14,<<>>,"67",<<<<3,1>>,<<7,1>>,<<11,1>>>>,"5">>,
    <<15,<<<<3,1>>>>,"4f",<<<<5,1>>>>,"35">>,
    <<15,<<>>,"b5",<<<<7,1>>>>,"1">>,
    <<15,<<<<7,1>>>>,"1",<<>>,"b5">>,
    <<15,<<<<5,1>>>>,"35",<<<<3,1>>>>,"4f">>,
    <<16,<<>>,"fb",<<<<3,1>>,<<5,1>>>>,"d">>,
    <<16,<<<<7,1>>>>,"5b",<<>>,"57">>,
    <<16,<<<<3,2>>>>,"1d",<<<<7,1>>>>,"5b">>,
    <<16,<<<<3,1>>>>,"1",<<<<13,1>>>>,"47">>,
    <<16,<<<<7,1>>>>,"5b",<<<<3,2>>>>,"1d">>,
    <<16,<<<<13,1>>>>,"47",<<<<3,1>>>>,"1">>,
    <<17,<<<<3,2>>,<<7,1>>>>,"21",<<<<5,1>>,<<13,1>>>>,"1f">>,
    <<17,<<<<11,1>>>>,"55",<<<<13,1>>>>,"3f">>,
    <<17,<<<<7,1>>>>,"59",<<>>,"113">>,
    <<17,<<<<5,1>>,<<13,1>>>>,"1f",<<<<3,2>>,<<7,1>>>>,"21">>,
    <<17,<<<<7,1>>>>,"63",<<<<5,1>>,<<13,1>>>>,"1f">>,
    <<17,<<<<11,1>>>>,"1",<<<<3,1>>,<<7,1>>>>,"4f">>,
    <<18,<<>>,"11",<<<<3,2>>,<<5,1>>,<<11,1>>>>,"17">>,
    <<18,<<<<3,1>>,<<5,1>>>>,"77",<<>>,"df">>,
    <<18,<<>>,"11",<<<<5,1>>,<<11,1>>>>,"45">>,
    <<18,<<<<3,2>>,<<7,1>>>>,"1f",<<>>,"1c1">>,
    <<18,<<<<7,1>>>>,"5d",<<>>,"1c1">>,
    <<18,<<>>,"1c1",<<<<7,1>>>>,"5d">>,
    <<19,<<<<3,1>>>>,"199",<<<<5,1>>>>,"43">>,
    <<19,<<<<7,1>>>>,"10f",<<>>,"65">>,
    <<19,<<>>,"65",<<<<7,1>>>>,"10f">>,
    <<19,<<<<5,1>>>>,"43",<<<<3,1>>>>,"199">>,
    <<20,<<<<3,1>>,<<5,1>>>>,"ab",<<>>,"30d">>,
    <<20,<<>>,"343",<<<<3,1>>,<<7,1>>,<<11,1>>>>,"27">>,
    <<20,<<<<11,1>>>>,"b5",<<<<5,1>>>>,"173">>,
    <<20,<<<<7,1>>>>,"55",<<>>,"3e7">>,
    <<20,<<<<3,1>>>>,"1cb",<<<<13,1>>>>,"b3">>,
    <<20,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"27",<<>>,"343">>,
    <<21,<<<<3,1>>>>,"25",<<<<5,1>>>>,"287">>,
    <<21,<<>>,"31d",<<<<7,1>>>>,"1c9">>,
    <<21,<<<<5,1>>>>,"287",<<<<3,1>>>>,"25">>,
    <<21,<<<<7,1>>>>,"1c9",<<>>,"31d">>,
    <<22,<<<<3,2>>,<<7,1>>>>,"d1",<<>>,"4b1">>,
    <<22,<<<<3,2>>,<<11,1>>,<<13,1>>>>,"35",<<>>,"2f9">>,
    <<22,<<<<5,1>>,<<11,1>>>>,"5f",<<<<3,2>>>>,"281">>,
    <<22,<<>>,"4b1",<<<<7,1>>>>,"273">>,
    <<22,<<<<3,2>>>>,"281",<<<<5,1>>,<<11,1>>>>,"5f">>,
    <<22,<<>>,"2f9",<<<<11,1>>,<<13,1>>>>,"9f">>,
    <<23,<<<<11,1>>>>,"33b",<<<<3,1>>,<<7,1>>>>,"cb">>,
    <<23,<<<<3,1>>,<<7,1>>>>,"cb",<<<<11,1>>>>,"33b">>,
    <<23,<<<<7,1>>>>,"11f",<<>>,"aeb">>,
    <<23,<<>>,"aeb",<<<<7,1>>>>,"11f">>,
    <<23,<<<<3,1>>>>,"63f",<<<<5,1>>>>,"17b">>,
    <<23,<<<<5,1>>>>,"17b",<<<<3,1>>>>,"63f">>,
    <<24,<<<<7,1>>>>,"605",<<>>,"189">>,
    <<24,<<<<3,1>>>>,"907",<<<<13,1>>>>,"f1">>,
    <<24,<<>>,"5ab",<<<<3,1>>,<<5,1>>>>,"3dd">>,
    <<24,<<>>,"189",<<<<7,1>>>>,"605">>,
    <<24,<<<<13,1>>>>,"f1",<<<<3,1>>>>,"907">>,
    <<24,<<<<11,1>>>>,"4af",<<<<5,1>>>>,"1b7">>,
    <<25,<<<<5,1>>>>,"8a1",<<<<3,1>>>>,"6d3">>,
    <<25,<<>>,"144d",<<<<7,1>>>>,"3c7">>,
    <<25,<<<<7,1>>>>,"3c7",<<>>,"144d">>,
    <<25,<<<<3,1>>>>,"6d3",<<<<5,1>>>>,"8a1">>,
    <<26,<<<<3,1>>,<<13,1>>>>,"40b",<<>>,"13a9">>,
    <<26,<<<<3,2>>,<<7,1>>>>,"2c1",<<>>,"175f">>,
    <<26,<<<<3,1>>,<<5,1>>>>,"e7",<<>>,"1fcf">>,
    <<26,<<>>,"1579",<<<<3,2>>,<<5,1>>,<<11,1>>>>,"111">>,
    <<26,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"203",<<>>,"971">>,
    <<26,<<<<7,1>>>>,"843",<<>>,"175f">>,
    <<27,<<<<5,1>>>>,"e8d",<<<<3,1>>>>,"1229">>,
    <<27,<<<<7,1>>>>,"b9d",<<<<5,1>>,<<13,1>>>>,"41f">>,
    <<27,<<<<3,1>>>>,"1229",<<<<5,1>>>>,"e8d">>,
    <<27,<<<<13,1>>>>,"10b",<<<<11,1>>>>,"d99">>,
    <<27,<<<<5,1>>,<<13,1>>>>,"41f",<<<<7,1>>>>,"b9d">>,
    <<27,<<<<11,1>>>>,"d99",<<<<3,2>>,<<13,1>>>>,"59">>,
    <<28,<<<<5,1>>>>,"1c55",<<<<11,1>>>>,"2bd">>,
    <<28,<<<<3,1>>>>,"1073",<<<<13,1>>>>,"fe5">>,
    <<28,<<>>,"923",<<<<3,1>>,<<5,1>>>>,"105b">>,
    <<28,<<<<3,1>>,<<5,1>>>>,"105b",<<>>,"923">>,
    <<28,<<>>,"3ff9",<<<<7,1>>>>,"b5">>,
    <<28,<<<<7,1>>>>,"b5",<<>>,"3ff9">>,
    <<29,<<<<3,1>>>>,"2d75",<<<<5,1>>>>,"13f7">>,
    <<29,<<<<11,1>>>>,"1067",<<<<3,1>>,<<7,1>>>>,"fc9">>,
    <<29,<<<<5,1>>>>,"13f7",<<<<3,1>>>>,"2d75">>,
    <<29,<<<<7,1>>>>,"2057",<<>>,"1d83">>,
    <<29,<<>>,"1d83",<<<<7,1>>>>,"2057">>,
    <<29,<<<<3,1>>,<<7,1>>>>,"fc9",<<<<11,1>>>>,"1067">>,
    <<30,<<<<7,1>>>>,"1eed",<<>>,"626f">>,
    <<30,<<<<5,1>>,<<11,1>>>>,"f89",<<<<3,2>>>>,"1297">>,
    <<30,<<>>,"7619",<<<<3,1>>,<<5,1>>>>,"cbf">>,
    <<30,<<<<3,2>>>>,"1297",<<<<5,1>>,<<11,1>>>>,"f89">>,
    <<30,<<>>,"7ffd",<<<<3,1>>,<<13,1>>>>,"47">>,
    <<30,<<>>,"37c5",<<<<5,1>>,<<11,1>>>>,"f89">>,
    <<31,<<<<5,1>>>>,"4e2b",<<<<3,1>>>>,"1b2f">>,
    <<31,<<<<3,1>>>>,"1b2f",<<<<5,1>>>>,"4e2b">>,
    <<31,<<>>,"9d75",<<<<7,1>>>>,"21c1">>,
    <<31,<<<<7,1>>>>,"21c1",<<>>,"9d75">>,
    <<32,<<<<7,1>>>>,"5f9b",<<<<3,2>>>>,"d23">>,
    <<32,<<<<13,1>>>>,"4069",<<<<3,1>>>>,"3e31">>,
    <<32,<<<<3,2>>,<<11,1>>,<<13,1>>>>,"6f9",<<>>,"3673">>,
    <<32,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"4f",<<>>,"fff5">>,
    <<32,<<>>,"3673",<<<<11,1>>,<<13,1>>>>,"14eb">>,
    <<32,<<<<3,1>>>>,"3e31",<<<<13,1>>>>,"4069">>,
    <<33,<<<<5,1>>>>,"1b1",<<<<3,1>>>>,"d103">>,
    <<33,<<<<7,1>>>>,"1c19",<<>>,"16253">>,
    <<33,<<<<3,1>>>>,"d103",<<<<5,1>>>>,"1b1">>,
    <<33,<<>>,"16253",<<<<7,1>>>>,"1c19">>,
    <<34,<<<<3,1>>,<<13,1>>>>,"3f4d",<<>>,"14561">>,
    <<34,<<<<3,2>>,<<5,1>>,<<11,1>>>>,"187",<<>>,"1fedf">>,
    <<34,<<>>,"11381",<<<<7,1>>>>,"a31d">>,
    <<34,<<>>,"1fedf",<<<<3,2>>,<<5,1>>,<<11,1>>>>,"187">>,
    <<34,<<>>,"13dbf",<<<<3,1>>,<<5,1>>>>,"67a9">>,
    <<34,<<>>,"1fedf",<<<<5,1>>,<<11,1>>>>,"495">>,
    <<35,<<<<7,1>>>>,"db4f",<<>>,"1b125">>,
    <<35,<<<<11,1>>>>,"7cbd",<<<<3,1>>,<<7,1>>>>,"81ad">>,
    <<35,<<>>,"1b125",<<<<7,1>>>>,"db4f">>,
    <<35,<<<<3,1>>>>,"6447",<<<<5,1>>>>,"13a5d">>,
    <<35,<<<<3,1>>,<<7,1>>>>,"81ad",<<<<11,1>>>>,"7cbd">>,
    <<35,<<<<5,1>>>>,"13a5d",<<<<3,1>>>>,"6447">>,
    <<36,<<<<7,1>>>>,"6aeb",<<>>,"3d827">>,
    <<36,<<<<3,2>>>>,"1480d",<<<<7,1>>>>,"6aeb">>,
    <<36,<<<<5,1>>>>,"118a3",<<<<11,1>>>>,"f3fb">>,
    <<36,<<>>,"3a853",<<<<3,1>>,<<5,1>>>>,"6b0b">>,
    <<36,<<<<7,1>>>>,"6aeb",<<<<3,2>>>>,"1480d">>,
    <<36,<<<<13,1>>>>,"43bd",<<<<3,1>>>>,"23e25">>,
    <<37,<<<<13,1>>>>,"c4b9",<<<<11,1>>>>,"17cad">>,
    <<37,<<<<11,1>>>>,"17cad",<<<<3,2>>,<<13,1>>>>,"4193">>,
    <<37,<<<<11,1>>>>,"17cad",<<<<13,1>>>>,"c4b9">>,
    <<37,<<<<3,1>>>>,"2dfc5",<<<<5,1>>>>,"13399">>,
    <<37,<<<<7,1>>>>,"22189",<<>>,"75dd">>,
    <<37,<<<<5,1>>>>,"13399",<<<<3,1>>>>,"2dfc5">>,
    <<38,<<<<3,1>>,<<5,1>>>>,"209af",<<>>,"14ea9">>,
    <<38,<<>>,"73a71",<<<<3,2>>,<<7,1>>>>,"6e91">>,
    <<38,<<<<3,1>>,<<7,1>>,<<11,1>>>>,"7f35",<<>>,"2a389">>,
    <<38,<<<<3,1>>,<<13,1>>>>,"140f1",<<>>,"1a4eb">>,
    <<38,<<>>,"2804d",<<<<5,1>>,<<11,1>>>>,"1064f">>,
    <<38,<<<<5,1>>,<<11,1>>>>,"1064f",<<<<3,2>>>>,"d56f">>,
    <<39,<<>>,"8262b",<<<<7,1>>>>,"2f75f">>,
    <<39,<<<<7,1>>>>,"2f75f",<<>>,"8262b">>,
    <<39,<<<<3,1>>>>,"470e1",<<<<5,1>>>>,"3b5db">>,
    <<39,<<<<5,1>>>>,"3b5db",<<<<3,1>>>>,"470e1">>,
    <<40,<<<<13,1>>>>,"2b3df",<<<<3,1>>>>,"753a9">>,
    <<40,<<<<3,1>>,<<5,1>>>>,"5d83",<<>>,"feff5">>,
    <<40,<<>>,"feff5",<<<<3,1>>,<<5,1>>>>,"5d83">>,
    <<40,<<<<7,1>>>>,"58ec5",<<<<3,2>>>>,"21a3d">>,
    <<40,<<<<7,1>>>>,"58ec5",<<>>,"64eb7">>,
    <<40,<<<<3,2>>>>,"21a3d",<<<<7,1>>>>,"58ec5">>,
    <<41,<<>>,"169b0d",<<<<7,1>>>>,"5ff9">>,
    <<41,<<<<5,1>>>>,"8843f",<<<<3,1>>>>,"70e33">>,
    <<41,<<<<7,1>>>>,"5ff9",<<>>,"169b0d">>,
    <<41,<<<<3,1>>,<<7,1>>>>,"169df",<<<<11,1>>>>,"68971">>,
    <<41,<<<<3,1>>>>,"70e33",<<<<5,1>>>>,"8843f">>,
    <<41,<<<<11,1>>>>,"68971",<<<<3,1>>,<<7,1>>>>,"169df">>>>
=============================================================================
