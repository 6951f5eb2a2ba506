--------------------------- MODULE GeometryTable ---------------------------
(* Written by tools/geometry_table.py: depth and thickness in thousandths   *)
(* of the outer radius, ratio in hundredths, factor in millionths.          *)
Table == <<
  <<1, 20, 30, 800019>>,
  <<1, 20, 60, 800024>>,
  <<1, 20, 100, 800033>>,
  <<1, 20, 150, 800045>>,
  <<1, 20, 200, 800057>>,
  <<1, 20, 300, 800082>>,
  <<6, 20, 30, 800679>>,
  <<6, 20, 60, 800863>>,
  <<6, 20, 100, 801175>>,
  <<6, 20, 150, 801609>>,
  <<6, 20, 200, 802058>>,
  <<6, 20, 300, 802961>>,
  <<12, 20, 30, 802707>>,
  <<12, 20, 60, 803443>>,
  <<12, 20, 100, 804695>>,
  <<12, 20, 150, 806435>>,
  <<12, 20, 200, 808244>>,
  <<12, 20, 300, 811901>>,
  <<19, 20, 30, 806779>>,
  <<19, 20, 60, 808630>>,
  <<19, 20, 100, 811793>>,
  <<19, 20, 150, 816211>>,
  <<19, 20, 200, 820834>>,
  <<19, 20, 300, 830280>>,
  <<3, 60, 30, 800059>>,
  <<3, 60, 60, 800074>>,
  <<3, 60, 100, 800100>>,
  <<3, 60, 150, 800135>>,
  <<3, 60, 200, 800169>>,
  <<3, 60, 300, 800234>>,
  <<18, 60, 30, 802104>>,
  <<18, 60, 60, 802651>>,
  <<18, 60, 100, 803565>>,
  <<18, 60, 150, 804798>>,
  <<18, 60, 200, 806036>>,
  <<18, 60, 300, 808391>>,
  <<36, 60, 30, 808348>>,
  <<36, 60, 60, 810532>>,
  <<36, 60, 100, 814198>>,
  <<36, 60, 150, 819189>>,
  <<36, 60, 200, 824246>>,
  <<36, 60, 300, 834029>>,
  <<57, 60, 30, 820857>>,
  <<57, 60, 60, 826393>>,
  <<57, 60, 100, 835791>>,
  <<57, 60, 150, 848806>>,
  <<57, 60, 200, 862285>>,
  <<57, 60, 300, 889315>>,
  <<8, 150, 30, 800184>>,
  <<8, 150, 60, 800228>>,
  <<8, 150, 100, 800298>>,
  <<8, 150, 150, 800387>>,
  <<8, 150, 200, 800467>>,
  <<8, 150, 300, 800592>>,
  <<45, 150, 30, 805684>>,
  <<45, 150, 60, 807035>>,
  <<45, 150, 100, 809201>>,
  <<45, 150, 150, 811937>>,
  <<45, 150, 200, 814436>>,
  <<45, 150, 300, 818346>>,
  <<90, 150, 30, 822289>>,
  <<90, 150, 60, 827660>>,
  <<90, 150, 100, 836377>>,
  <<90, 150, 150, 847621>>,
  <<90, 150, 200, 858176>>,
  <<90, 150, 300, 875519>>,
  <<142, 150, 30, 855029>>,
  <<142, 150, 60, 868791>>,
  <<142, 150, 100, 891775>>,
  <<142, 150, 150, 922872>>,
  <<142, 150, 200, 953994>>,
  <<142, 150, 300, 1011699>>,
  <<20, 400, 30, 800572>>,
  <<20, 400, 60, 800686>>,
  <<20, 400, 100, 800849>>,
  <<20, 400, 150, 801015>>,
  <<20, 400, 200, 801111>>,
  <<20, 400, 300, 801057>>,
  <<120, 400, 30, 819220>>,
  <<120, 400, 60, 822966>>,
  <<120, 400, 100, 828304>>,
  <<120, 400, 150, 833583>>,
  <<120, 400, 200, 836300>>,
  <<120, 400, 300, 832269>>,
  <<240, 400, 30, 873167>>,
  <<240, 400, 60, 887891>>,
  <<240, 400, 100, 909419>>,
  <<240, 400, 150, 931589>>,
  <<240, 400, 200, 943327>>,
  <<380, 400, 30, 980143>>,
  <<380, 400, 60, 1020646>>,
  <<380, 400, 100, 1084973>>,
  <<380, 400, 150, 1162667>>,
  <<380, 400, 200, 1219408>>,
  <<40, 800, 30, 801810>>,
  <<40, 800, 60, 802133>>,
  <<40, 800, 100, 802559>>,
  <<40, 800, 150, 802903>>,
  <<40, 800, 200, 802951>>,
  <<40, 800, 300, 802033>>,
  <<240, 800, 30, 857432>>,
  <<240, 800, 60, 867243>>,
  <<240, 800, 100, 879641>>,
  <<240, 800, 150, 887541>>,
  <<240, 800, 200, 882673>>,
  <<480, 800, 30, 1013633>>,
  <<480, 800, 60, 1053791>>,
  <<480, 800, 100, 1105796>>,
  <<480, 800, 150, 1132487>>,
  <<760, 800, 30, 1332227>>,
  <<760, 800, 60, 1462399>>,
  <<760, 800, 100, 1656526>>,
  <<760, 800, 150, 1760075>>
>>
============================================================================
