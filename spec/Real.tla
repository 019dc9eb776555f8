-------------------------------- MODULE Real --------------------------------
(* The real-valued functions at sample arguments, written by tools/mkreal.py *)
(* from their mathematical definitions: <<name, argument...>>, then the     *)
(* floats four steps below and above the true value.                       *)
EXTENDS Integers
RealTable == <<
   <<<<"math.log",<<"f",1,-1>>>>, <<"f",-2907271,-22>>, <<"f",-2907269,-22>>>>,
   <<<<"math.log",<<"f",3,-1>>>>, <<"f",13605147,-25>>, <<"f",13605155,-25>>>>,
   <<<<"math.log",<<"f",5,-1>>>>, <<"f",3843201,-22>>, <<"f",3843203,-22>>>>,
   <<<<"math.log",<<"f",15,-2>>>>, <<"f",1385961,-20>>, <<"f",692981,-19>>>>,
   <<<<"math.log",<<"f",1,-2>>>>, <<"f",-2907271,-21>>, <<"f",-2907269,-21>>>>,
   <<<<"math.log",<<"f",9,-2>>>>, <<"f",13605147,-24>>, <<"f",13605155,-24>>>>,
   <<<<"math.log",<<"f",13421773,-27>>>>, <<"f",-4828873,-21>>, <<"f",-4828869,-21>>>>,
   <<<<"math.log",<<"f",3,-2>>>>, <<"f",-9653013,-25>>, <<"f",-9653005,-25>>>>,
   <<<<"math.log",<<"f",1,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.log",<<"f",1,1>>>>, <<"f",2907269,-22>>, <<"f",2907271,-22>>>>,
   <<<<"math.log",<<"f",3,0>>>>, <<"f",575989,-19>>, <<"f",1151979,-20>>>>,
   <<<<"math.log",<<"f",1,2>>>>, <<"f",2907269,-21>>, <<"f",2907271,-21>>>>,
   <<<<"math.log",<<"f",5,0>>>>, <<"f",3375235,-21>>, <<"f",3375237,-21>>>>,
   <<<<"math.log",<<"f",25,-2>>>>, <<"f",3843201,-21>>, <<"f",3843203,-21>>>>,
   <<<<"math.log",<<"f",7,0>>>>, <<"f",16323473,-23>>, <<"f",16323481,-23>>>>,
   <<<<"math.log",<<"f",1,3>>>>, <<"f",4360903,-21>>, <<"f",4360907,-21>>>>,
   <<<<"math.log",<<"f",9,0>>>>, <<"f",575989,-18>>, <<"f",1151979,-19>>>>,
   <<<<"math.log",<<"f",5,1>>>>, <<"f",4828869,-21>>, <<"f",4828873,-21>>>>,
   <<<<"math.log",<<"f",1,4>>>>, <<"f",2907269,-20>>, <<"f",2907271,-20>>>>,
   <<<<"math.log",<<"f",5,2>>>>, <<"f",785313,-18>>, <<"f",1570627,-19>>>>,
   <<<<"math.log",<<"f",25,1>>>>, <<"f",8204105,-21>>, <<"f",8204109,-21>>>>,
   <<<<"math.log",<<"f",1,6>>>>, <<"f",4360903,-20>>, <<"f",4360907,-20>>>>,
   <<<<"math.log",<<"f",25,2>>>>, <<"f",4828869,-20>>, <<"f",4828873,-20>>>>,
   <<<<"math.log",<<"f",255,0>>>>, <<"f",2905217,-19>>, <<"f",2905219,-19>>>>,
   <<<<"math.log",<<"f",1,8>>>>, <<"f",2907269,-19>>, <<"f",2907271,-19>>>>,
   <<<<"math.log",<<"f",125,3>>>>, <<"f",14486609,-21>>, <<"f",14486617,-21>>>>,
   <<<<"math.log",<<"f",8589935,-33>>>>, <<"f",-14486617,-21>>, <<"f",-14486609,-21>>>>,
   <<<<"math.log",<<"f",1,10>>>>, <<"f",7268173,-20>>, <<"f",7268177,-20>>>>,
   <<<<"math.log",<<"f",65535,0>>>>, <<"f",2907265,-18>>, <<"f",2907267,-18>>>>,
   <<<<"math.log",<<"f",1,16>>>>, <<"f",2907269,-18>>, <<"f",2907271,-18>>>>,
   <<<<"math.log",<<"f",15625,6>>>>, <<"f",14486609,-20>>, <<"f",14486617,-20>>>>,
   <<<<"math.log",<<"f",1,-3>>>>, <<"f",-4360907,-21>>, <<"f",-4360903,-21>>>>,
   <<<<"math.log",<<"f",7549747,-23>>>>, <<"f",-14141257,-27>>, <<"f",-14141249,-27>>>>,
   <<<<"math.log",<<"f",5033165,-24>>>>, <<"f",-2524915,-21>>, <<"f",-2524913,-21>>>>,
   <<<<"math.log",<<"f",11744051,-24>>>>, <<"f",-5984015,-24>>, <<"f",-5984011,-24>>>>,
   <<<<"math.log",<<"f",5368709,-29>>>>, <<"f",-4828873,-20>>, <<"f",-4828869,-20>>>>,
   <<<<"math.log",<<"f",25,-1>>>>, <<"f",5296835,-21>>, <<"f",5296839,-21>>>>,
   <<<<"math.log",<<"f",33,0>>>>, <<"f",3666353,-20>>, <<"f",3666355,-20>>>>,
   <<<<"math.log",<<"f",9227469,-23>>>>, <<"f",12792315,-27>>, <<"f",12792323,-27>>>>,
   <<<<"math.log",<<"f",15938355,-23>>>>, <<"f",10768517,-24>>, <<"f",10768525,-24>>>>,
   <<<<"math.log2",<<"f",1,-1>>>>, <<"f",-2097153,-21>>, <<"f",-4194303,-22>>>>,
   <<<<"math.log2",<<"f",3,-1>>>>, <<"f",4907019,-23>>, <<"f",4907023,-23>>>>,
   <<<<"math.log2",<<"f",5,-1>>>>, <<"f",11089133,-23>>, <<"f",11089141,-23>>>>,
   <<<<"math.log2",<<"f",15,-2>>>>, <<"f",7998077,-22>>, <<"f",7998081,-22>>>>,
   <<<<"math.log2",<<"f",1,-2>>>>, <<"f",-2097153,-20>>, <<"f",-4194303,-21>>>>,
   <<<<"math.log2",<<"f",9,-2>>>>, <<"f",4907019,-22>>, <<"f",4907023,-22>>>>,
   <<<<"math.log2",<<"f",13421773,-27>>>>, <<"f",-3483295,-20>>, <<"f",-3483293,-20>>>>,
   <<<<"math.log2",<<"f",3,-2>>>>, <<"f",-870397,-21>>, <<"f",-1740793,-22>>>>,
   <<<<"math.log2",<<"f",1,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.log2",<<"f",1,1>>>>, <<"f",4194303,-22>>, <<"f",2097153,-21>>>>,
   <<<<"math.log2",<<"f",3,0>>>>, <<"f",13295625,-23>>, <<"f",13295633,-23>>>>,
   <<<<"math.log2",<<"f",1,2>>>>, <<"f",4194303,-21>>, <<"f",2097153,-20>>>>,
   <<<<"math.log2",<<"f",5,0>>>>, <<"f",2434717,-20>>, <<"f",2434719,-20>>>>,
   <<<<"math.log2",<<"f",25,-2>>>>, <<"f",11089133,-22>>, <<"f",11089141,-22>>>>,
   <<<<"math.log2",<<"f",7,0>>>>, <<"f",735931,-18>>, <<"f",1471863,-19>>>>,
   <<<<"math.log2",<<"f",1,3>>>>, <<"f",3145727,-20>>, <<"f",3145729,-20>>>>,
   <<<<"math.log2",<<"f",9,0>>>>, <<"f",13295625,-22>>, <<"f",13295633,-22>>>>,
   <<<<"math.log2",<<"f",5,1>>>>, <<"f",3483293,-20>>, <<"f",3483295,-20>>>>,
   <<<<"math.log2",<<"f",1,4>>>>, <<"f",4194303,-20>>, <<"f",2097153,-19>>>>,
   <<<<"math.log2",<<"f",5,2>>>>, <<"f",1132967,-18>>, <<"f",141621,-15>>>>,
   <<<<"math.log2",<<"f",25,1>>>>, <<"f",2959005,-19>>, <<"f",2959007,-19>>>>,
   <<<<"math.log2",<<"f",1,6>>>>, <<"f",3145727,-19>>, <<"f",3145729,-19>>>>,
   <<<<"math.log2",<<"f",25,2>>>>, <<"f",3483293,-19>>, <<"f",3483295,-19>>>>,
   <<<<"math.log2",<<"f",255,0>>>>, <<"f",8382685,-20>>, <<"f",8382689,-20>>>>,
   <<<<"math.log2",<<"f",1,8>>>>, <<"f",4194303,-19>>, <<"f",2097153,-18>>>>,
   <<<<"math.log2",<<"f",125,3>>>>, <<"f",5224939,-19>>, <<"f",5224943,-19>>>>,
   <<<<"math.log2",<<"f",8589935,-33>>>>, <<"f",-5224943,-19>>, <<"f",-5224939,-19>>>>,
   <<<<"math.log2",<<"f",1,10>>>>, <<"f",2621439,-18>>, <<"f",2621441,-18>>>>,
   <<<<"math.log2",<<"f",65535,0>>>>, <<"f",16777189,-20>>, <<"f",16777197,-20>>>>,
   <<<<"math.log2",<<"f",1,16>>>>, <<"f",4194303,-18>>, <<"f",2097153,-17>>>>,
   <<<<"math.log2",<<"f",15625,6>>>>, <<"f",5224939,-18>>, <<"f",5224943,-18>>>>,
   <<<<"math.log2",<<"f",1,-3>>>>, <<"f",-3145729,-20>>, <<"f",-3145727,-20>>>>,
   <<<<"math.log2",<<"f",7549747,-23>>>>, <<"f",-10200761,-26>>, <<"f",-10200753,-26>>>>,
   <<<<"math.log2",<<"f",5033165,-24>>>>, <<"f",-14570727,-23>>, <<"f",-14570719,-23>>>>,
   <<<<"math.log2",<<"f",11744051,-24>>>>, <<"f",-4316555,-23>>, <<"f",-4316551,-23>>>>,
   <<<<"math.log2",<<"f",5368709,-29>>>>, <<"f",-3483295,-19>>, <<"f",-3483293,-19>>>>,
   <<<<"math.log2",<<"f",25,-1>>>>, <<"f",15283437,-22>>, <<"f",15283445,-22>>>>,
   <<<<"math.log2",<<"f",33,0>>>>, <<"f",10578857,-21>>, <<"f",10578865,-21>>>>,
   <<<<"math.log2",<<"f",9227469,-23>>>>, <<"f",9227703,-26>>, <<"f",9227711,-26>>>>,
   <<<<"math.log2",<<"f",15938355,-23>>>>, <<"f",1941961,-21>>, <<"f",970981,-20>>>>,
   <<<<"math.log10",<<"f",1,-1>>>>, <<"f",-10100895,-25>>, <<"f",-10100887,-25>>>>,
   <<<<"math.log10",<<"f",3,-1>>>>, <<"f",184645,-20>>, <<"f",1477161,-23>>>>,
   <<<<"math.log10",<<"f",5,-1>>>>, <<"f",13352647,-25>>, <<"f",13352655,-25>>>>,
   <<<<"math.log10",<<"f",15,-2>>>>, <<"f",9630643,-24>>, <<"f",9630651,-24>>>>,
   <<<<"math.log10",<<"f",1,-2>>>>, <<"f",-10100895,-24>>, <<"f",-10100887,-24>>>>,
   <<<<"math.log10",<<"f",9,-2>>>>, <<"f",184645,-19>>, <<"f",1477161,-22>>>>,
   <<<<"math.log10",<<"f",13421773,-27>>>>, <<"f",-2097153,-21>>, <<"f",-4194303,-22>>>>,
   <<<<"math.log10",<<"f",3,-2>>>>, <<"f",-16768997,-27>>, <<"f",-16768989,-27>>>>,
   <<<<"math.log10",<<"f",1,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.log10",<<"f",1,1>>>>, <<"f",10100887,-25>>, <<"f",10100895,-25>>>>,
   <<<<"math.log10",<<"f",3,0>>>>, <<"f",16009529,-25>>, <<"f",16009537,-25>>>>,
   <<<<"math.log10",<<"f",1,2>>>>, <<"f",10100887,-24>>, <<"f",10100895,-24>>>>,
   <<<<"math.log10",<<"f",5,0>>>>, <<"f",11726767,-24>>, <<"f",11726775,-24>>>>,
   <<<<"math.log10",<<"f",25,-2>>>>, <<"f",13352647,-24>>, <<"f",13352655,-24>>>>,
   <<<<"math.log10",<<"f",7,0>>>>, <<"f",3544597,-22>>, <<"f",3544599,-22>>>>,
   <<<<"math.log10",<<"f",1,3>>>>, <<"f",3787833,-22>>, <<"f",3787835,-22>>>>,
   <<<<"math.log10",<<"f",9,0>>>>, <<"f",16009529,-24>>, <<"f",16009537,-24>>>>,
   <<<<"math.log10",<<"f",5,1>>>>, <<"f",4194303,-22>>, <<"f",2097153,-21>>>>,
   <<<<"math.log10",<<"f",1,4>>>>, <<"f",10100887,-23>>, <<"f",10100895,-23>>>>,
   <<<<"math.log10",<<"f",5,2>>>>, <<"f",10913827,-23>>, <<"f",10913835,-23>>>>,
   <<<<"math.log10",<<"f",25,1>>>>, <<"f",14251989,-23>>, <<"f",14251997,-23>>>>,
   <<<<"math.log10",<<"f",1,6>>>>, <<"f",3787833,-21>>, <<"f",3787835,-21>>>>,
   <<<<"math.log10",<<"f",25,2>>>>, <<"f",4194303,-21>>, <<"f",2097153,-20>>>>,
   <<<<"math.log10",<<"f",255,0>>>>, <<"f",10093757,-22>>, <<"f",10093765,-22>>>>,
   <<<<"math.log10",<<"f",1,8>>>>, <<"f",10100887,-22>>, <<"f",10100895,-22>>>>,
   <<<<"math.log10",<<"f",125,3>>>>, <<"f",3145727,-20>>, <<"f",3145729,-20>>>>,
   <<<<"math.log10",<<"f",8589935,-33>>>>, <<"f",-3145729,-20>>, <<"f",-3145727,-20>>>>,
   <<<<"math.log10",<<"f",1,10>>>>, <<"f",12626109,-22>>, <<"f",12626117,-22>>>>,
   <<<<"math.log10",<<"f",65535,0>>>>, <<"f",10100873,-21>>, <<"f",10100881,-21>>>>,
   <<<<"math.log10",<<"f",1,16>>>>, <<"f",10100887,-21>>, <<"f",10100895,-21>>>>,
   <<<<"math.log10",<<"f",15625,6>>>>, <<"f",3145727,-19>>, <<"f",3145729,-19>>>>,
   <<<<"math.log10",<<"f",1,-3>>>>, <<"f",-3787835,-22>>, <<"f",-3787833,-22>>>>,
   <<<<"math.log10",<<"f",7549747,-23>>>>, <<"f",-3070735,-26>>, <<"f",-3070733,-26>>>>,
   <<<<"math.log10",<<"f",5033165,-24>>>>, <<"f",-8772453,-24>>, <<"f",-8772445,-24>>>>,
   <<<<"math.log10",<<"f",11744051,-24>>>>, <<"f",-10395299,-26>>, <<"f",-10395291,-26>>>>,
   <<<<"math.log10",<<"f",5368709,-29>>>>, <<"f",-2097153,-20>>, <<"f",-4194303,-21>>>>,
   <<<<"math.log10",<<"f",25,-1>>>>, <<"f",1150193,-20>>, <<"f",575097,-19>>>>,
   <<<<"math.log10",<<"f",33,0>>>>, <<"f",6369107,-22>>, <<"f",6369111,-22>>>>,
   <<<<"math.log10",<<"f",9227469,-23>>>>, <<"f",11111263,-28>>, <<"f",11111271,-28>>>>,
   <<<<"math.log10",<<"f",15938355,-23>>>>, <<"f",9353415,-25>>, <<"f",9353423,-25>>>>,
   <<<<"math.exp",<<"f",0,0>>>>, <<"f",4194303,-22>>, <<"f",2097153,-21>>>>,
   <<<<"math.exp",<<"f",1,-1>>>>, <<"f",1728809,-20>>, <<"f",864405,-19>>>>,
   <<<<"math.exp",<<"f",-1,-1>>>>, <<"f",2543973,-22>>, <<"f",2543975,-22>>>>,
   <<<<"math.exp",<<"f",3,-1>>>>, <<"f",9398779,-21>>, <<"f",9398787,-21>>>>,
   <<<<"math.exp",<<"f",-3,-1>>>>, <<"f",1871751,-23>>, <<"f",233969,-20>>>>,
   <<<<"math.exp",<<"f",5,-1>>>>, <<"f",12774267,-20>>, <<"f",12774275,-20>>>>,
   <<<<"math.exp",<<"f",-5,-1>>>>, <<"f",5508629,-26>>, <<"f",5508633,-26>>>>,
   <<<<"math.exp",<<"f",15,-2>>>>, <<"f",11146643,-18>>, <<"f",11146651,-18>>>>,
   <<<<"math.exp",<<"f",-15,-2>>>>, <<"f",6312995,-28>>, <<"f",6312999,-28>>>>,
   <<<<"math.exp",<<"f",1,-2>>>>, <<"f",5385591,-22>>, <<"f",5385595,-22>>>>,
   <<<<"math.exp",<<"f",-1,-2>>>>, <<"f",13066105,-24>>, <<"f",13066113,-24>>>>,
   <<<<"math.exp",<<"f",9,-2>>>>, <<"f",155447,-14>>, <<"f",1243577,-17>>>>,
   <<<<"math.exp",<<"f",13421773,-27>>>>, <<"f",4635421,-22>>, <<"f",4635425,-22>>>>,
   <<<<"math.exp",<<"f",-13421773,-27>>>>, <<"f",15180649,-24>>, <<"f",15180657,-24>>>>,
   <<<<"math.exp",<<"f",3,-2>>>>, <<"f",4439669,-21>>, <<"f",4439673,-21>>>>,
   <<<<"math.exp",<<"f",-3,-2>>>>, <<"f",15849987,-25>>, <<"f",15849995,-25>>>>,
   <<<<"math.exp",<<"f",1,0>>>>, <<"f",712581,-18>>, <<"f",1425163,-19>>>>,
   <<<<"math.exp",<<"f",-1,0>>>>, <<"f",6171991,-24>>, <<"f",6171995,-24>>>>,
   <<<<"math.exp",<<"f",1,1>>>>, <<"f",7747985,-20>>, <<"f",7747989,-20>>>>,
   <<<<"math.exp",<<"f",-1,1>>>>, <<"f",9082193,-26>>, <<"f",9082201,-26>>>>,
   <<<<"math.exp",<<"f",3,0>>>>, <<"f",5265301,-18>>, <<"f",5265305,-18>>>>,
   <<<<"math.exp",<<"f",-3,0>>>>, <<"f",6682305,-27>>, <<"f",6682309,-27>>>>,
   <<<<"math.exp",<<"f",1,2>>>>, <<"f",14312573,-18>>, <<"f",14312581,-18>>>>,
   <<<<"math.exp",<<"f",5,0>>>>, <<"f",9726401,-16>>, <<"f",9726409,-16>>>>,
   <<<<"math.exp",<<"f",25,-2>>>>, <<"f",4243559,-13>>, <<"f",4243563,-13>>>>,
   <<<<"math.exp",<<"f",7,0>>>>, <<"f",8983615,-13>>, <<"f",8983623,-13>>>>,
   <<<<"math.exp",<<"f",-7,0>>>>, <<"f",15666009,-34>>, <<"f",15666017,-34>>>>,
   <<<<"math.exp",<<"f",1,3>>>>, <<"f",763125,-8>>, <<"f",1526251,-9>>>>,
   <<<<"math.exp",<<"f",9,0>>>>, <<"f",2074389,-8>>, <<"f",1037195,-7>>>>,
   <<<<"math.exp",<<"f",5,1>>>>, <<"f",5638773,-8>>, <<"f",5638777,-8>>>>,
   <<<<"math.exp",<<"f",-5,1>>>>, <<"f",6239717,-37>>, <<"f",6239721,-37>>>>,
   <<<<"math.exp",<<"f",1,4>>>>, <<"f",8886107,0>>, <<"f",8886115,0>>>>,
   <<<<"math.exp",<<"f",5,2>>>>, <<"f",236897,11>>, <<"f",1895177,8>>>>,
   <<<<"math.exp",<<"f",25,1>>>>, <<"f",9209883,49>>, <<"f",9209891,49>>>>,
   <<<<"math.exp",<<"f",8589935,-33>>>>, <<"f",8396997,-23>>, <<"f",8397005,-23>>>>,
   <<<<"math.exp",<<"f",1,-3>>>>, <<"f",4752767,-22>>, <<"f",4752771,-22>>>>,
   <<<<"math.exp",<<"f",7549747,-23>>>>, <<"f",10316319,-22>>, <<"f",10316327,-22>>>>,
   <<<<"math.exp",<<"f",5033165,-24>>>>, <<"f",11323433,-23>>, <<"f",11323441,-23>>>>,
   <<<<"math.exp",<<"f",11744051,-24>>>>, <<"f",8446287,-22>>, <<"f",8446295,-22>>>>,
   <<<<"math.exp",<<"f",-7549747,-23>>>>, <<"f",6821105,-24>>, <<"f",6821109,-24>>>>,
   <<<<"math.exp",<<"f",5368709,-29>>>>, <<"f",8472911,-23>>, <<"f",8472919,-23>>>>,
   <<<<"math.exp",<<"f",25,-1>>>>, <<"f",8586789,-5>>, <<"f",8586797,-5>>>>,
   <<<<"math.exp",<<"f",33,0>>>>, <<"f",6396875,25>>, <<"f",6396879,25>>>>,
   <<<<"math.exp",<<"f",9227469,-23>>>>, <<"f",6300191,-21>>, <<"f",6300195,-21>>>>,
   <<<<"math.exp",<<"f",15938355,-23>>>>, <<"f",14021333,-21>>, <<"f",14021341,-21>>>>,
   <<<<"math.sqrt",<<"f",0,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.sqrt",<<"f",1,-1>>>>, <<"f",11863279,-24>>, <<"f",11863287,-24>>>>,
   <<<<"math.sqrt",<<"f",3,-1>>>>, <<"f",10273901,-23>>, <<"f",10273909,-23>>>>,
   <<<<"math.sqrt",<<"f",5,-1>>>>, <<"f",6631775,-22>>, <<"f",6631779,-22>>>>,
   <<<<"math.sqrt",<<"f",15,-2>>>>, <<"f",8122233,-22>>, <<"f",8122237,-22>>>>,
   <<<<"math.sqrt",<<"f",1,-2>>>>, <<"f",4194303,-23>>, <<"f",2097153,-22>>>>,
   <<<<"math.sqrt",<<"f",9,-2>>>>, <<"f",3145727,-21>>, <<"f",3145729,-21>>>>,
   <<<<"math.sqrt",<<"f",13421773,-27>>>>, <<"f",10610839,-25>>, <<"f",10610847,-25>>>>,
   <<<<"math.sqrt",<<"f",3,-2>>>>, <<"f",14529491,-24>>, <<"f",14529499,-24>>>>,
   <<<<"math.sqrt",<<"f",1,0>>>>, <<"f",4194303,-22>>, <<"f",2097153,-21>>>>,
   <<<<"math.sqrt",<<"f",1,1>>>>, <<"f",11863279,-23>>, <<"f",11863287,-23>>>>,
   <<<<"math.sqrt",<<"f",3,0>>>>, <<"f",14529491,-23>>, <<"f",14529499,-23>>>>,
   <<<<"math.sqrt",<<"f",1,2>>>>, <<"f",4194303,-21>>, <<"f",2097153,-20>>>>,
   <<<<"math.sqrt",<<"f",5,0>>>>, <<"f",9378745,-22>>, <<"f",9378753,-22>>>>,
   <<<<"math.sqrt",<<"f",25,-2>>>>, <<"f",2621439,-20>>, <<"f",2621441,-20>>>>,
   <<<<"math.sqrt",<<"f",7,0>>>>, <<"f",11097081,-22>>, <<"f",11097089,-22>>>>,
   <<<<"math.sqrt",<<"f",1,3>>>>, <<"f",11863279,-22>>, <<"f",11863287,-22>>>>,
   <<<<"math.sqrt",<<"f",9,0>>>>, <<"f",3145727,-20>>, <<"f",3145729,-20>>>>,
   <<<<"math.sqrt",<<"f",5,1>>>>, <<"f",6631775,-21>>, <<"f",6631779,-21>>>>,
   <<<<"math.sqrt",<<"f",1,4>>>>, <<"f",4194303,-20>>, <<"f",2097153,-19>>>>,
   <<<<"math.sqrt",<<"f",5,2>>>>, <<"f",9378745,-21>>, <<"f",9378753,-21>>>>,
   <<<<"math.sqrt",<<"f",25,1>>>>, <<"f",3707275,-19>>, <<"f",3707277,-19>>>>,
   <<<<"math.sqrt",<<"f",1,6>>>>, <<"f",4194303,-19>>, <<"f",2097153,-18>>>>,
   <<<<"math.sqrt",<<"f",25,2>>>>, <<"f",2621439,-18>>, <<"f",2621441,-18>>>>,
   <<<<"math.sqrt",<<"f",255,0>>>>, <<"f",4186103,-18>>, <<"f",4186105,-18>>>>,
   <<<<"math.sqrt",<<"f",1,8>>>>, <<"f",4194303,-18>>, <<"f",2097153,-17>>>>,
   <<<<"math.sqrt",<<"f",125,3>>>>, <<"f",8289719,-18>>, <<"f",8289723,-18>>>>,
   <<<<"math.sqrt",<<"f",8589935,-33>>>>, <<"f",8488671,-28>>, <<"f",8488679,-28>>>>,
   <<<<"math.sqrt",<<"f",1,10>>>>, <<"f",4194303,-17>>, <<"f",2097153,-16>>>>,
   <<<<"math.sqrt",<<"f",65535,0>>>>, <<"f",4194271,-14>>, <<"f",4194273,-14>>>>,
   <<<<"math.sqrt",<<"f",1,16>>>>, <<"f",4194303,-14>>, <<"f",2097153,-13>>>>,
   <<<<"math.sqrt",<<"f",15625,6>>>>, <<"f",4095999,-12>>, <<"f",4096001,-12>>>>,
   <<<<"math.sqrt",<<"f",1,-3>>>>, <<"f",11863279,-25>>, <<"f",11863287,-25>>>>,
   <<<<"math.sqrt",<<"f",7549747,-23>>>>, <<"f",3979065,-22>>, <<"f",3979067,-22>>>>,
   <<<<"math.sqrt",<<"f",5033165,-24>>>>, <<"f",1148657,-21>>, <<"f",574329,-20>>>>,
   <<<<"math.sqrt",<<"f",11744051,-24>>>>, <<"f",7018411,-23>>, <<"f",7018415,-23>>>>,
   <<<<"math.sqrt",<<"f",5368709,-29>>>>, <<"f",13421769,-27>>, <<"f",13421777,-27>>>>,
   <<<<"math.sqrt",<<"f",25,-1>>>>, <<"f",3707275,-20>>, <<"f",3707277,-20>>>>,
   <<<<"math.sqrt",<<"f",33,0>>>>, <<"f",12047217,-21>>, <<"f",12047225,-21>>>>,
   <<<<"math.sqrt",<<"f",9227469,-23>>>>, <<"f",4399021,-22>>, <<"f",4399025,-22>>>>,
   <<<<"math.sqrt",<<"f",15938355,-23>>>>, <<"f",5781447,-22>>, <<"f",5781451,-22>>>>,
   <<<<"math.sin",<<"f",0,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.sin",<<"f",1,-1>>>>, <<"f",251357,-19>>, <<"f",2010857,-22>>>>,
   <<<<"math.sin",<<"f",-1,-1>>>>, <<"f",-2010857,-22>>, <<"f",-251357,-19>>>>,
   <<<<"math.sin",<<"f",3,-1>>>>, <<"f",16735185,-24>>, <<"f",16735193,-24>>>>,
   <<<<"math.sin",<<"f",-3,-1>>>>, <<"f",-16735193,-24>>, <<"f",-16735185,-24>>>>,
   <<<<"math.sin",<<"f",5,-1>>>>, <<"f",2510173,-22>>, <<"f",2510175,-22>>>>,
   <<<<"math.sin",<<"f",-5,-1>>>>, <<"f",-2510175,-22>>, <<"f",-2510173,-22>>>>,
   <<<<"math.sin",<<"f",15,-2>>>>, <<"f",-2397303,-22>>, <<"f",-2397301,-22>>>>,
   <<<<"math.sin",<<"f",-15,-2>>>>, <<"f",2397301,-22>>, <<"f",2397303,-22>>>>,
   <<<<"math.sin",<<"f",1,-2>>>>, <<"f",16602995,-26>>, <<"f",16603003,-26>>>>,
   <<<<"math.sin",<<"f",-1,-2>>>>, <<"f",-16603003,-26>>, <<"f",-16602995,-26>>>>,
   <<<<"math.sin",<<"f",9,-2>>>>, <<"f",6526949,-23>>, <<"f",6526953,-23>>>>,
   <<<<"math.sin",<<"f",13421773,-27>>>>, <<"f",13399411,-27>>, <<"f",13399419,-27>>>>,
   <<<<"math.sin",<<"f",-13421773,-27>>>>, <<"f",-13399419,-27>>, <<"f",-13399411,-27>>>>,
   <<<<"math.sin",<<"f",3,-2>>>>, <<"f",11435997,-24>>, <<"f",11436005,-24>>>>,
   <<<<"math.sin",<<"f",-3,-2>>>>, <<"f",-11436005,-24>>, <<"f",-11435997,-24>>>>,
   <<<<"math.sin",<<"f",1,0>>>>, <<"f",441173,-19>>, <<"f",1764693,-21>>>>,
   <<<<"math.sin",<<"f",-1,0>>>>, <<"f",-1764693,-21>>, <<"f",-441173,-19>>>>,
   <<<<"math.sin",<<"f",1,1>>>>, <<"f",15255475,-24>>, <<"f",15255483,-24>>>>,
   <<<<"math.sin",<<"f",-1,1>>>>, <<"f",-15255483,-24>>, <<"f",-15255475,-24>>>>,
   <<<<"math.sin",<<"f",3,0>>>>, <<"f",9470399,-26>>, <<"f",9470407,-26>>>>,
   <<<<"math.sin",<<"f",-3,0>>>>, <<"f",-9470407,-26>>, <<"f",-9470399,-26>>>>,
   <<<<"math.sin",<<"f",1,2>>>>, <<"f",-12697043,-24>>, <<"f",-12697035,-24>>>>,
   <<<<"math.sin",<<"f",5,0>>>>, <<"f",-4022021,-22>>, <<"f",-4022019,-22>>>>,
   <<<<"math.sin",<<"f",25,-2>>>>, <<"f",-4453241,-27>>, <<"f",-4453237,-27>>>>,
   <<<<"math.sin",<<"f",7,0>>>>, <<"f",5511201,-23>>, <<"f",5511205,-23>>>>,
   <<<<"math.sin",<<"f",-7,0>>>>, <<"f",-5511205,-23>>, <<"f",-5511201,-23>>>>,
   <<<<"math.sin",<<"f",1,3>>>>, <<"f",16598673,-24>>, <<"f",16598681,-24>>>>,
   <<<<"math.sin",<<"f",9,0>>>>, <<"f",6914199,-24>>, <<"f",6914203,-24>>>>,
   <<<<"math.sin",<<"f",5,1>>>>, <<"f",-2281791,-22>>, <<"f",-2281789,-22>>>>,
   <<<<"math.sin",<<"f",-5,1>>>>, <<"f",2281789,-22>>, <<"f",2281791,-22>>>>,
   <<<<"math.sin",<<"f",1,4>>>>, <<"f",-2415109,-23>>, <<"f",-2415107,-23>>>>,
   <<<<"math.sin",<<"f",5,2>>>>, <<"f",3829169,-22>>, <<"f",3829171,-22>>>>,
   <<<<"math.sin",<<"f",25,1>>>>, <<"f",-8803843,-25>>, <<"f",-8803835,-25>>>>,
   <<<<"math.sin",<<"f",1,6>>>>, <<"f",964717,-20>>, <<"f",1929435,-21>>>>,
   <<<<"math.sin",<<"f",25,2>>>>, <<"f",-4247705,-23>>, <<"f",-4247701,-23>>>>,
   <<<<"math.sin",<<"f",255,0>>>>, <<"f",-4247923,-23>>, <<"f",-4247919,-23>>>>,
   <<<<"math.sin",<<"f",1,8>>>>, <<"f",-16763933,-24>>, <<"f",-16763925,-24>>>>,
   <<<<"math.sin",<<"f",125,3>>>>, <<"f",13872733,-24>>, <<"f",13872741,-24>>>>,
   <<<<"math.sin",<<"f",8589935,-33>>>>, <<"f",4294965,-32>>, <<"f",4294969,-32>>>>,
   <<<<"math.sin",<<"f",1,10>>>>, <<"f",-10638999,-26>>, <<"f",-10638991,-26>>>>,
   <<<<"math.sin",<<"f",1,-3>>>>, <<"f",16733555,-27>>, <<"f",16733563,-27>>>>,
   <<<<"math.sin",<<"f",7549747,-23>>>>, <<"f",13142041,-24>>, <<"f",13142049,-24>>>>,
   <<<<"math.sin",<<"f",5033165,-24>>>>, <<"f",9916009,-25>>, <<"f",9916017,-25>>>>,
   <<<<"math.sin",<<"f",11744051,-24>>>>, <<"f",10808175,-24>>, <<"f",10808183,-24>>>>,
   <<<<"math.sin",<<"f",-7549747,-23>>>>, <<"f",-13142049,-24>>, <<"f",-13142041,-24>>>>,
   <<<<"math.sin",<<"f",5368709,-29>>>>, <<"f",10737235,-30>>, <<"f",10737243,-30>>>>,
   <<<<"math.sin",<<"f",25,-1>>>>, <<"f",-4450789,-26>>, <<"f",-4450785,-26>>>>,
   <<<<"math.sin",<<"f",33,0>>>>, <<"f",16775733,-24>>, <<"f",16775741,-24>>>>,
   <<<<"math.sin",<<"f",9227469,-23>>>>, <<"f",14951975,-24>>, <<"f",14951983,-24>>>>,
   <<<<"math.sin",<<"f",15938355,-23>>>>, <<"f",15876277,-24>>, <<"f",15876285,-24>>>>,
   <<<<"math.cos",<<"f",0,0>>>>, <<"f",4194303,-22>>, <<"f",2097153,-21>>>>,
   <<<<"math.cos",<<"f",1,-1>>>>, <<"f",3680847,-22>>, <<"f",3680849,-22>>>>,
   <<<<"math.cos",<<"f",-1,-1>>>>, <<"f",3680847,-22>>, <<"f",3680849,-22>>>>,
   <<<<"math.cos",<<"f",3,-1>>>>, <<"f",4747091,-26>>, <<"f",4747095,-26>>>>,
   <<<<"math.cos",<<"f",-3,-1>>>>, <<"f",4747091,-26>>, <<"f",4747095,-26>>>>,
   <<<<"math.cos",<<"f",5,-1>>>>, <<"f",-13440963,-24>>, <<"f",-13440955,-24>>>>,
   <<<<"math.cos",<<"f",-5,-1>>>>, <<"f",-13440963,-24>>, <<"f",-13440955,-24>>>>,
   <<<<"math.cos",<<"f",15,-2>>>>, <<"f",-6883353,-23>>, <<"f",-6883349,-23>>>>,
   <<<<"math.cos",<<"f",-15,-2>>>>, <<"f",-6883353,-23>>, <<"f",-6883349,-23>>>>,
   <<<<"math.cos",<<"f",1,-2>>>>, <<"f",16255649,-24>>, <<"f",16255657,-24>>>>,
   <<<<"math.cos",<<"f",-1,-2>>>>, <<"f",16255649,-24>>, <<"f",16255657,-24>>>>,
   <<<<"math.cos",<<"f",9,-2>>>>, <<"f",-10539009,-24>>, <<"f",-10539001,-24>>>>,
   <<<<"math.cos",<<"f",13421773,-27>>>>, <<"f",4173349,-22>>, <<"f",4173351,-22>>>>,
   <<<<"math.cos",<<"f",-13421773,-27>>>>, <<"f",4173349,-22>>, <<"f",4173351,-22>>>>,
   <<<<"math.cos",<<"f",3,-2>>>>, <<"f",6137849,-23>>, <<"f",6137853,-23>>>>,
   <<<<"math.cos",<<"f",-3,-2>>>>, <<"f",6137849,-23>>, <<"f",6137853,-23>>>>,
   <<<<"math.cos",<<"f",1,0>>>>, <<"f",2266191,-22>>, <<"f",2266193,-22>>>>,
   <<<<"math.cos",<<"f",-1,0>>>>, <<"f",2266191,-22>>, <<"f",2266193,-22>>>>,
   <<<<"math.cos",<<"f",1,1>>>>, <<"f",-13963575,-25>>, <<"f",-13963567,-25>>>>,
   <<<<"math.cos",<<"f",-1,1>>>>, <<"f",-13963575,-25>>, <<"f",-13963567,-25>>>>,
   <<<<"math.cos",<<"f",3,0>>>>, <<"f",-8304661,-23>>, <<"f",-8304657,-23>>>>,
   <<<<"math.cos",<<"f",-3,0>>>>, <<"f",-8304661,-23>>, <<"f",-8304657,-23>>>>,
   <<<<"math.cos",<<"f",1,2>>>>, <<"f",-2741581,-22>>, <<"f",-2741579,-22>>>>,
   <<<<"math.cos",<<"f",5,0>>>>, <<"f",1189765,-22>>, <<"f",594883,-21>>>>,
   <<<<"math.cos",<<"f",25,-2>>>>, <<"f",16767975,-24>>, <<"f",16767983,-24>>>>,
   <<<<"math.cos",<<"f",7,0>>>>, <<"f",12648377,-24>>, <<"f",12648385,-24>>>>,
   <<<<"math.cos",<<"f",-7,0>>>>, <<"f",12648377,-24>>, <<"f",12648385,-24>>>>,
   <<<<"math.cos",<<"f",1,3>>>>, <<"f",-4882173,-25>>, <<"f",-4882169,-25>>>>,
   <<<<"math.cos",<<"f",9,0>>>>, <<"f",-15286233,-24>>, <<"f",-15286225,-24>>>>,
   <<<<"math.cos",<<"f",5,1>>>>, <<"f",-1759661,-21>>, <<"f",-439915,-19>>>>,
   <<<<"math.cos",<<"f",-5,1>>>>, <<"f",-1759661,-21>>, <<"f",-439915,-19>>>>,
   <<<<"math.cos",<<"f",1,4>>>>, <<"f",-1004179,-20>>, <<"f",-2008357,-21>>>>,
   <<<<"math.cos",<<"f",5,2>>>>, <<"f",6846479,-24>>, <<"f",6846483,-24>>>>,
   <<<<"math.cos",<<"f",25,1>>>>, <<"f",16189439,-24>>, <<"f",16189447,-24>>>>,
   <<<<"math.cos",<<"f",1,6>>>>, <<"f",13148543,-25>>, <<"f",13148551,-25>>>>,
   <<<<"math.cos",<<"f",25,2>>>>, <<"f",7233653,-23>>, <<"f",7233657,-23>>>>,
   <<<<"math.cos",<<"f",255,0>>>>, <<"f",-7233529,-23>>, <<"f",-7233525,-23>>>>,
   <<<<"math.cos",<<"f",1,8>>>>, <<"f",-10681255,-28>>, <<"f",-10681247,-28>>>>,
   <<<<"math.cos",<<"f",125,3>>>>, <<"f",9435151,-24>>, <<"f",9435159,-24>>>>,
   <<<<"math.cos",<<"f",8589935,-33>>>>, <<"f",4194301,-22>>, <<"f",4194303,-22>>>>,
   <<<<"math.cos",<<"f",1,10>>>>, <<"f",16565041,-24>>, <<"f",16565049,-24>>>>,
   <<<<"math.cos",<<"f",1,-3>>>>, <<"f",16646311,-24>>, <<"f",16646319,-24>>>>,
   <<<<"math.cos",<<"f",7549747,-23>>>>, <<"f",10428881,-24>>, <<"f",10428889,-24>>>>,
   <<<<"math.cos",<<"f",5033165,-24>>>>, <<"f",16027883,-24>>, <<"f",16027891,-24>>>>,
   <<<<"math.cos",<<"f",11744051,-24>>>>, <<"f",12831919,-24>>, <<"f",12831927,-24>>>>,
   <<<<"math.cos",<<"f",-7549747,-23>>>>, <<"f",10428881,-24>>, <<"f",10428889,-24>>>>,
   <<<<"math.cos",<<"f",5368709,-29>>>>, <<"f",16776373,-24>>, <<"f",16776381,-24>>>>,
   <<<<"math.cos",<<"f",25,-1>>>>, <<"f",16740273,-24>>, <<"f",16740281,-24>>>>,
   <<<<"math.cos",<<"f",33,0>>>>, <<"f",-14255803,-30>>, <<"f",-14255795,-30>>>>,
   <<<<"math.cos",<<"f",9227469,-23>>>>, <<"f",15220155,-25>>, <<"f",15220163,-25>>>>,
   <<<<"math.cos",<<"f",15938355,-23>>>>, <<"f",-10847801,-25>>, <<"f",-10847793,-25>>>>,
   <<<<"math.tan",<<"f",0,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.tan",<<"f",1,-1>>>>, <<"f",9165431,-24>>, <<"f",9165439,-24>>>>,
   <<<<"math.tan",<<"f",-1,-1>>>>, <<"f",-9165439,-24>>, <<"f",-9165431,-24>>>>,
   <<<<"math.tan",<<"f",3,-1>>>>, <<"f",14786407,-20>>, <<"f",14786415,-20>>>>,
   <<<<"math.tan",<<"f",-3,-1>>>>, <<"f",-14786415,-20>>, <<"f",-14786407,-20>>>>,
   <<<<"math.tan",<<"f",5,-1>>>>, <<"f",-6266479,-23>>, <<"f",-6266475,-23>>>>,
   <<<<"math.tan",<<"f",-5,-1>>>>, <<"f",6266475,-23>>, <<"f",6266479,-23>>>>,
   <<<<"math.tan",<<"f",15,-2>>>>, <<"f",2921545,-22>>, <<"f",2921547,-22>>>>,
   <<<<"math.tan",<<"f",-15,-2>>>>, <<"f",-2921547,-22>>, <<"f",-2921545,-22>>>>,
   <<<<"math.tan",<<"f",1,-2>>>>, <<"f",8567849,-25>>, <<"f",8567857,-25>>>>,
   <<<<"math.tan",<<"f",-1,-2>>>>, <<"f",-8567857,-25>>, <<"f",-8567849,-25>>>>,
   <<<<"math.tan",<<"f",9,-2>>>>, <<"f",-5195183,-22>>, <<"f",-5195179,-22>>>>,
   <<<<"math.tan",<<"f",13421773,-27>>>>, <<"f",210417,-21>>, <<"f",1683337,-24>>>>,
   <<<<"math.tan",<<"f",-13421773,-27>>>>, <<"f",-1683337,-24>>, <<"f",-210417,-21>>>>,
   <<<<"math.tan",<<"f",3,-2>>>>, <<"f",15629591,-24>>, <<"f",15629599,-24>>>>,
   <<<<"math.tan",<<"f",-3,-2>>>>, <<"f",-15629599,-24>>, <<"f",-15629591,-24>>>>,
   <<<<"math.tan",<<"f",1,0>>>>, <<"f",13064479,-23>>, <<"f",13064487,-23>>>>,
   <<<<"math.tan",<<"f",-1,0>>>>, <<"f",-13064487,-23>>, <<"f",-13064479,-23>>>>,
   <<<<"math.tan",<<"f",1,1>>>>, <<"f",-9164725,-22>>, <<"f",-9164717,-22>>>>,
   <<<<"math.tan",<<"f",-1,1>>>>, <<"f",9164717,-22>>, <<"f",9164725,-22>>>>,
   <<<<"math.tan",<<"f",3,0>>>>, <<"f",-9566141,-26>>, <<"f",-9566133,-26>>>>,
   <<<<"math.tan",<<"f",-3,0>>>>, <<"f",9566133,-26>>, <<"f",9566141,-26>>>>,
   <<<<"math.tan",<<"f",1,2>>>>, <<"f",9712505,-23>>, <<"f",9712513,-23>>>>,
   <<<<"math.tan",<<"f",5,0>>>>, <<"f",-443091,-17>>, <<"f",-1772363,-19>>>>,
   <<<<"math.tan",<<"f",25,-2>>>>, <<"f",-8911389,-28>>, <<"f",-8911381,-28>>>>,
   <<<<"math.tan",<<"f",7,0>>>>, <<"f",14620467,-24>>, <<"f",14620475,-24>>>>,
   <<<<"math.tan",<<"f",-7,0>>>>, <<"f",-14620475,-24>>, <<"f",-14620467,-24>>>>,
   <<<<"math.tan",<<"f",1,3>>>>, <<"f",-222813,-15>>, <<"f",-1782503,-18>>>>,
   <<<<"math.tan",<<"f",9,0>>>>, <<"f",-15177199,-25>>, <<"f",-15177191,-25>>>>,
   <<<<"math.tan",<<"f",5,1>>>>, <<"f",5438843,-23>>, <<"f",5438847,-23>>>>,
   <<<<"math.tan",<<"f",-5,1>>>>, <<"f",-5438847,-23>>, <<"f",-5438843,-23>>>>,
   <<<<"math.tan",<<"f",1,4>>>>, <<"f",2521885,-23>>, <<"f",2521887,-23>>>>,
   <<<<"math.tan",<<"f",5,2>>>>, <<"f",9383329,-22>>, <<"f",9383337,-22>>>>,
   <<<<"math.tan",<<"f",25,1>>>>, <<"f",-9123475,-25>>, <<"f",-9123467,-25>>>>,
   <<<<"math.tan",<<"f",1,6>>>>, <<"f",2461909,-20>>, <<"f",2461911,-20>>>>,
   <<<<"math.tan",<<"f",25,2>>>>, <<"f",-9851819,-24>>, <<"f",-9851811,-24>>>>,
   <<<<"math.tan",<<"f",255,0>>>>, <<"f",9852491,-24>>, <<"f",9852499,-24>>>>,
   <<<<"math.tan",<<"f",1,8>>>>, <<"f",13165685,-19>>, <<"f",13165693,-19>>>>,
   <<<<"math.tan",<<"f",125,3>>>>, <<"f",12333969,-23>>, <<"f",12333977,-23>>>>,
   <<<<"math.tan",<<"f",8589935,-33>>>>, <<"f",4294967,-32>>, <<"f",4294971,-32>>>>,
   <<<<"math.tan",<<"f",1,10>>>>, <<"f",-10775267,-26>>, <<"f",-10775259,-26>>>>,
   <<<<"math.tan",<<"f",1,-3>>>>, <<"f",8432569,-26>>, <<"f",8432577,-26>>>>,
   <<<<"math.tan",<<"f",7549747,-23>>>>, <<"f",10570969,-23>>, <<"f",10570977,-23>>>>,
   <<<<"math.tan",<<"f",5033165,-24>>>>, <<"f",10379599,-25>>, <<"f",10379607,-25>>>>,
   <<<<"math.tan",<<"f",11744051,-24>>>>, <<"f",7065625,-23>>, <<"f",7065629,-23>>>>,
   <<<<"math.tan",<<"f",-7549747,-23>>>>, <<"f",-10570977,-23>>, <<"f",-10570969,-23>>>>,
   <<<<"math.tan",<<"f",5368709,-29>>>>, <<"f",2684443,-28>>, <<"f",2684445,-28>>>>,
   <<<<"math.tan",<<"f",25,-1>>>>, <<"f",-2230305,-25>>, <<"f",-2230303,-25>>>>,
   <<<<"math.tan",<<"f",33,0>>>>, <<"f",-9871431,-17>>, <<"f",-9871423,-17>>>>,
   <<<<"math.tan",<<"f",9227469,-23>>>>, <<"f",4120399,-21>>, <<"f",4120401,-21>>>>,
   <<<<"math.tan",<<"f",15938355,-23>>>>, <<"f",-6138571,-21>>, <<"f",-6138567,-21>>>>,
   <<<<"math.asin",<<"f",0,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.asin",<<"f",1,-1>>>>, <<"f",4392263,-23>>, <<"f",4392267,-23>>>>,
   <<<<"math.asin",<<"f",-1,-1>>>>, <<"f",-4392267,-23>>, <<"f",-4392263,-23>>>>,
   <<<<"math.asin",<<"f",1,-2>>>>, <<"f",4239269,-24>>, <<"f",4239273,-24>>>>,
   <<<<"math.asin",<<"f",-1,-2>>>>, <<"f",-4239273,-24>>, <<"f",-4239269,-24>>>>,
   <<<<"math.asin",<<"f",13421773,-27>>>>, <<"f",840265,-23>>, <<"f",1680531,-24>>>>,
   <<<<"math.asin",<<"f",-13421773,-27>>>>, <<"f",-1680531,-24>>, <<"f",-840265,-23>>>>,
   <<<<"math.asin",<<"f",3,-2>>>>, <<"f",14228117,-24>>, <<"f",14228125,-24>>>>,
   <<<<"math.asin",<<"f",-3,-2>>>>, <<"f",-14228125,-24>>, <<"f",-14228117,-24>>>>,
   <<<<"math.asin",<<"f",1,0>>>>, <<"f",13176791,-23>>, <<"f",13176799,-23>>>>,
   <<<<"math.asin",<<"f",-1,0>>>>, <<"f",-13176799,-23>>, <<"f",-13176791,-23>>>>,
   <<<<"math.asin",<<"f",8589935,-33>>>>, <<"f",2147483,-31>>, <<"f",2147485,-31>>>>,
   <<<<"math.asin",<<"f",1,-3>>>>, <<"f",2102651,-24>>, <<"f",2102653,-24>>>>,
   <<<<"math.asin",<<"f",7549747,-23>>>>, <<"f",9393303,-23>>, <<"f",9393311,-23>>>>,
   <<<<"math.asin",<<"f",5033165,-24>>>>, <<"f",10223785,-25>>, <<"f",10223793,-25>>>>,
   <<<<"math.asin",<<"f",11744051,-24>>>>, <<"f",13009007,-24>>, <<"f",13009015,-24>>>>,
   <<<<"math.asin",<<"f",-7549747,-23>>>>, <<"f",-9393311,-23>>, <<"f",-9393303,-23>>>>,
   <<<<"math.asin",<<"f",5368709,-29>>>>, <<"f",10737593,-30>>, <<"f",10737601,-30>>>>,
   <<<<"math.acos",<<"f",0,0>>>>, <<"f",13176791,-23>>, <<"f",13176799,-23>>>>,
   <<<<"math.acos",<<"f",1,-1>>>>, <<"f",4392263,-22>>, <<"f",4392267,-22>>>>,
   <<<<"math.acos",<<"f",-1,-1>>>>, <<"f",4392263,-21>>, <<"f",4392267,-21>>>>,
   <<<<"math.acos",<<"f",1,-2>>>>, <<"f",11057155,-23>>, <<"f",11057163,-23>>>>,
   <<<<"math.acos",<<"f",-1,-2>>>>, <<"f",7648213,-22>>, <<"f",7648217,-22>>>>,
   <<<<"math.acos",<<"f",13421773,-27>>>>, <<"f",12336525,-23>>, <<"f",12336533,-23>>>>,
   <<<<"math.acos",<<"f",-13421773,-27>>>>, <<"f",438033,-18>>, <<"f",1752133,-20>>>>,
   <<<<"math.acos",<<"f",3,-2>>>>, <<"f",12125465,-24>>, <<"f",12125473,-24>>>>,
   <<<<"math.acos",<<"f",-3,-2>>>>, <<"f",10145423,-22>>, <<"f",10145431,-22>>>>,
   <<<<"math.acos",<<"f",1,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.acos",<<"f",-1,0>>>>, <<"f",13176791,-22>>, <<"f",13176799,-22>>>>,
   <<<<"math.acos",<<"f",8589935,-33>>>>, <<"f",6584201,-22>>, <<"f",6584205,-22>>>>,
   <<<<"math.acos",<<"f",1,-3>>>>, <<"f",12125465,-23>>, <<"f",12125473,-23>>>>,
   <<<<"math.acos",<<"f",7549747,-23>>>>, <<"f",7566973,-24>>, <<"f",7566977,-24>>>>,
   <<<<"math.acos",<<"f",5033165,-24>>>>, <<"f",10620843,-23>>, <<"f",10620851,-23>>>>,
   <<<<"math.acos",<<"f",11744051,-24>>>>, <<"f",6672287,-23>>, <<"f",6672291,-23>>>>,
   <<<<"math.acos",<<"f",-7549747,-23>>>>, <<"f",11285047,-22>>, <<"f",11285055,-22>>>>,
   <<<<"math.acos",<<"f",5368709,-29>>>>, <<"f",13092903,-23>>, <<"f",13092911,-23>>>>,
   <<<<"math.atan",<<"f",0,0>>,<<"f",1,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.atan",<<"f",0,0>>,<<"f",-1,0>>>>, <<"f",13176791,-22>>, <<"f",13176799,-22>>>>,
   <<<<"math.atan",<<"f",0,0>>,<<"f",3,0>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.atan",<<"f",0,0>>,<<"f",1,-1>>>>, <<"f",0,0>>, <<"f",0,0>>>>,
   <<<<"math.atan",<<"f",0,0>>,<<"f",-5,-1>>>>, <<"f",13176791,-22>>, <<"f",13176799,-22>>>>,
   <<<<"math.atan",<<"f",1,0>>,<<"f",0,0>>>>, <<"f",13176791,-23>>, <<"f",13176799,-23>>>>,
   <<<<"math.atan",<<"f",1,0>>,<<"f",1,0>>>>, <<"f",13176791,-24>>, <<"f",13176799,-24>>>>,
   <<<<"math.atan",<<"f",1,0>>,<<"f",-1,0>>>>, <<"f",308831,-17>>, <<"f",1235325,-19>>>>,
   <<<<"math.atan",<<"f",1,0>>,<<"f",3,0>>>>, <<"f",10796153,-25>>, <<"f",10796161,-25>>>>,
   <<<<"math.atan",<<"f",1,0>>,<<"f",1,-1>>>>, <<"f",9287433,-23>>, <<"f",9287441,-23>>>>,
   <<<<"math.atan",<<"f",1,0>>,<<"f",-5,-1>>>>, <<"f",11580831,-22>>, <<"f",11580839,-22>>>>,
   <<<<"math.atan",<<"f",-1,0>>,<<"f",0,0>>>>, <<"f",-13176799,-23>>, <<"f",-13176791,-23>>>>,
   <<<<"math.atan",<<"f",-1,0>>,<<"f",1,0>>>>, <<"f",-13176799,-24>>, <<"f",-13176791,-24>>>>,
   <<<<"math.atan",<<"f",-1,0>>,<<"f",-1,0>>>>, <<"f",-1235325,-19>>, <<"f",-308831,-17>>>>,
   <<<<"math.atan",<<"f",-1,0>>,<<"f",3,0>>>>, <<"f",-10796161,-25>>, <<"f",-10796153,-25>>>>,
   <<<<"math.atan",<<"f",-1,0>>,<<"f",1,-1>>>>, <<"f",-9287441,-23>>, <<"f",-9287433,-23>>>>,
   <<<<"math.atan",<<"f",-1,0>>,<<"f",-5,-1>>>>, <<"f",-11580839,-22>>, <<"f",-11580831,-22>>>>,
   <<<<"math.atan",<<"f",1,1>>,<<"f",0,0>>>>, <<"f",13176791,-23>>, <<"f",13176799,-23>>>>,
   <<<<"math.atan",<<"f",1,1>>,<<"f",1,0>>>>, <<"f",9287433,-23>>, <<"f",9287441,-23>>>>,
   <<<<"math.atan",<<"f",1,1>>,<<"f",-1,0>>>>, <<"f",533317,-18>>, <<"f",1066635,-19>>>>,
   <<<<"math.atan",<<"f",1,1>>,<<"f",3,0>>>>, <<"f",9865043,-24>>, <<"f",9865051,-24>>>>,
   <<<<"math.atan",<<"f",1,1>>,<<"f",1,-1>>>>, <<"f",11121761,-23>>, <<"f",11121769,-23>>>>,
   <<<<"math.atan",<<"f",1,1>>,<<"f",-5,-1>>>>, <<"f",5173361,-21>>, <<"f",5173365,-21>>>>,
   <<<<"math.atan",<<"f",1,-1>>,<<"f",0,0>>>>, <<"f",13176791,-23>>, <<"f",13176799,-23>>>>,
   <<<<"math.atan",<<"f",1,-1>>,<<"f",1,0>>>>, <<"f",3889357,-23>>, <<"f",3889359,-23>>>>,
   <<<<"math.atan",<<"f",1,-1>>,<<"f",-1,0>>>>, <<"f",702007,-18>>, <<"f",1404015,-19>>>>,
   <<<<"math.atan",<<"f",1,-1>>,<<"f",3,0>>>>, <<"f",1385367,-23>>, <<"f",173171,-20>>>>,
   <<<<"math.atan",<<"f",1,-1>>,<<"f",1,-1>>>>, <<"f",13176791,-24>>, <<"f",13176799,-24>>>>,
   <<<<"math.atan",<<"f",1,-1>>,<<"f",-5,-1>>>>, <<"f",6174427,-21>>, <<"f",6174431,-21>>>>,
   <<<<"math.atan",<<"f",-5,-1>>,<<"f",0,0>>>>, <<"f",-13176799,-23>>, <<"f",-13176791,-23>>>>,
   <<<<"math.atan",<<"f",-5,-1>>,<<"f",1,0>>>>, <<"f",-624055,-19>>, <<"f",-1248109,-20>>>>,
   <<<<"math.atan",<<"f",-5,-1>>,<<"f",-1,0>>>>, <<"f",-16368717,-23>>, <<"f",-16368709,-23>>>>,
   <<<<"math.atan",<<"f",-5,-1>>,<<"f",3,0>>>>, <<"f",-5827889,-23>>, <<"f",-5827885,-23>>>>,
   <<<<"math.atan",<<"f",-5,-1>>,<<"f",1,-1>>>>, <<"f",-11520925,-23>>, <<"f",-11520917,-23>>>>,
   <<<<"math.atan",<<"f",-5,-1>>,<<"f",-5,-1>>>>, <<"f",-1235325,-19>>, <<"f",-308831,-17>>>>,
   <<<<"math.atan",<<"f",5,1>>,<<"f",0,0>>>>, <<"f",13176791,-23>>, <<"f",13176799,-23>>>>,
   <<<<"math.atan",<<"f",5,1>>,<<"f",1,0>>>>, <<"f",12340709,-23>>, <<"f",12340717,-23>>>>,
   <<<<"math.atan",<<"f",5,1>>,<<"f",-1,0>>>>, <<"f",1751609,-20>>, <<"f",875805,-19>>>>,
   <<<<"math.atan",<<"f",5,1>>,<<"f",3,0>>>>, <<"f",5365937,-22>>, <<"f",5365941,-22>>>>,
   <<<<"math.atan",<<"f",5,1>>,<<"f",1,-1>>>>, <<"f",12757709,-23>>, <<"f",12757717,-23>>>>,
   <<<<"math.atan",<<"f",5,1>>,<<"f",-5,-1>>>>, <<"f",15231821,-23>>, <<"f",15231829,-23>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",1,-1>>>>, <<"f",11863279,-23>>, <<"f",11863287,-23>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",3,-1>>>>, <<"f",11863279,-22>>, <<"f",11863287,-22>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",-1,-1>>>>, <<"f",11863279,-24>>, <<"f",11863287,-24>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",5,-1>>>>, <<"f",11863279,-21>>, <<"f",11863287,-21>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",1,-2>>>>, <<"f",2493947,-21>>, <<"f",2493949,-21>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",-3,-1>>>>, <<"f",11863279,-25>>, <<"f",11863287,-25>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",-1,1>>>>, <<"f",4194303,-24>>, <<"f",2097153,-23>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",-1,0>>>>, <<"f",4194303,-23>>, <<"f",2097153,-22>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",-3,0>>>>, <<"f",4194303,-25>>, <<"f",2097153,-24>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",3,-2>>>>, <<"f",14107897,-23>>, <<"f",14107905,-23>>>>,
   <<<<"pow",<<"f",1,1>>,<<"f",7,-1>>>>, <<"f",11863279,-20>>, <<"f",11863287,-20>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",1,-1>>>>, <<"f",14529491,-23>>, <<"f",14529499,-23>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",3,-1>>>>, <<"f",10897117,-21>>, <<"f",10897125,-21>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",-1,-1>>>>, <<"f",4843163,-23>>, <<"f",4843167,-23>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",5,-1>>>>, <<"f",8172839,-19>>, <<"f",8172843,-19>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",1,-2>>>>, <<"f",11040025,-23>>, <<"f",11040033,-23>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",-3,-1>>>>, <<"f",12915103,-26>>, <<"f",12915111,-26>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",-1,1>>>>, <<"f",14913077,-27>>, <<"f",14913085,-27>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",-1,0>>>>, <<"f",11184807,-25>>, <<"f",11184815,-25>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",-3,0>>>>, <<"f",4971025,-27>>, <<"f",4971029,-27>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",3,-2>>>>, <<"f",4780471,-21>>, <<"f",4780475,-21>>>>,
   <<<<"pow",<<"f",3,0>>,<<"f",7,-1>>>>, <<"f",6129629,-17>>, <<"f",6129633,-17>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",1,-1>>>>, <<"f",11863279,-24>>, <<"f",11863287,-24>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",3,-1>>>>, <<"f",11863279,-25>>, <<"f",11863287,-25>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",-1,-1>>>>, <<"f",11863279,-23>>, <<"f",11863287,-23>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",5,-1>>>>, <<"f",11863279,-26>>, <<"f",11863287,-26>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",1,-2>>>>, <<"f",14107897,-24>>, <<"f",14107905,-24>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",-3,-1>>>>, <<"f",11863279,-22>>, <<"f",11863287,-22>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",-1,1>>>>, <<"f",4194303,-20>>, <<"f",2097153,-19>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",-1,0>>>>, <<"f",4194303,-21>>, <<"f",2097153,-20>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",-3,0>>>>, <<"f",4194303,-19>>, <<"f",2097153,-18>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",3,-2>>>>, <<"f",2493947,-22>>, <<"f",2493949,-22>>>>,
   <<<<"pow",<<"f",1,-1>>,<<"f",7,-1>>>>, <<"f",11863279,-27>>, <<"f",11863287,-27>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",1,-1>>>>, <<"f",6631775,-21>>, <<"f",6631779,-21>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",3,-1>>>>, <<"f",8289719,-18>>, <<"f",8289723,-18>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",-1,-1>>>>, <<"f",10610839,-25>>, <<"f",10610847,-25>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",5,-1>>>>, <<"f",10362147,-15>>, <<"f",10362155,-15>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",1,-2>>>>, <<"f",14917285,-23>>, <<"f",14917293,-23>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",-3,-1>>>>, <<"f",4244335,-27>>, <<"f",4244339,-27>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",-1,1>>>>, <<"f",5368707,-29>>, <<"f",5368711,-29>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",-1,0>>>>, <<"f",13421769,-27>>, <<"f",13421777,-27>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",-3,0>>>>, <<"f",8589931,-33>>, <<"f",8589939,-33>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",3,-2>>>>, <<"f",2948287,-19>>, <<"f",2948289,-19>>>>,
   <<<<"pow",<<"f",5,1>>,<<"f",7,-1>>>>, <<"f",12952685,-12>>, <<"f",12952693,-12>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",1,-1>>>>, <<"f",6631775,-22>>, <<"f",6631779,-22>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",3,-1>>>>, <<"f",8289719,-21>>, <<"f",8289723,-21>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",-1,-1>>>>, <<"f",10610839,-24>>, <<"f",10610847,-24>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",5,-1>>>>, <<"f",10362147,-20>>, <<"f",10362155,-20>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",1,-2>>>>, <<"f",659257,-19>>, <<"f",1318515,-20>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",-3,-1>>>>, <<"f",4244335,-24>>, <<"f",4244339,-24>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",-1,1>>>>, <<"f",5368707,-25>>, <<"f",5368711,-25>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",-1,0>>>>, <<"f",13421769,-25>>, <<"f",13421777,-25>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",-3,0>>>>, <<"f",8589931,-27>>, <<"f",8589939,-27>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",3,-2>>>>, <<"f",1042377,-19>>, <<"f",2084755,-20>>>>,
   <<<<"pow",<<"f",5,-1>>,<<"f",7,-1>>>>, <<"f",12952685,-19>>, <<"f",12952693,-19>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",1,-1>>>>, <<"f",2621439,-18>>, <<"f",2621441,-18>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",3,-1>>>>, <<"f",4095999,-12>>, <<"f",4096001,-12>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",-1,-1>>>>, <<"f",13421769,-27>>, <<"f",13421777,-27>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",5,-1>>>>, <<"f",3199999,-5>>, <<"f",3200001,-5>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",1,-2>>>>, <<"f",6631775,-21>>, <<"f",6631779,-21>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",-3,-1>>>>, <<"f",8589931,-33>>, <<"f",8589939,-33>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",-1,1>>>>, <<"f",13743891,-37>>, <<"f",13743899,-37>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",-1,0>>>>, <<"f",5368707,-29>>, <<"f",5368711,-29>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",-3,0>>>>, <<"f",8796089,-43>>, <<"f",8796097,-43>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",3,-2>>>>, <<"f",8289719,-18>>, <<"f",8289723,-18>>>>,
   <<<<"pow",<<"f",25,2>>,<<"f",7,-1>>>>, <<"f",2499999,2>>, <<"f",2500001,2>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",1,-1>>>>, <<"f",3145727,-20>>, <<"f",3145729,-20>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",3,-1>>>>, <<"f",3538943,-17>>, <<"f",3538945,-17>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",-1,-1>>>>, <<"f",11184807,-25>>, <<"f",11184815,-25>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",5,-1>>>>, <<"f",3981311,-14>>, <<"f",3981313,-14>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",1,-2>>>>, <<"f",14529491,-23>>, <<"f",14529499,-23>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",-3,-1>>>>, <<"f",4971025,-27>>, <<"f",4971029,-27>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",-1,1>>>>, <<"f",3314017,-28>>, <<"f",3314019,-28>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",-1,0>>>>, <<"f",14913077,-27>>, <<"f",14913085,-27>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",-3,0>>>>, <<"f",11783171,-33>>, <<"f",11783179,-33>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",3,-2>>>>, <<"f",10897117,-21>>, <<"f",10897125,-21>>>>,
   <<<<"pow",<<"f",9,0>>,<<"f",7,-1>>>>, <<"f",2239487,-10>>, <<"f",2239489,-10>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",1,-1>>>>, <<"f",4194303,-21>>, <<"f",2097153,-20>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",3,-1>>>>, <<"f",4194303,-19>>, <<"f",2097153,-18>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",-1,-1>>>>, <<"f",4194303,-23>>, <<"f",2097153,-22>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",5,-1>>>>, <<"f",4194303,-17>>, <<"f",2097153,-16>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",1,-2>>>>, <<"f",11863279,-23>>, <<"f",11863287,-23>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",-3,-1>>>>, <<"f",4194303,-25>>, <<"f",2097153,-24>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",-1,1>>>>, <<"f",4194303,-26>>, <<"f",2097153,-25>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",-1,0>>>>, <<"f",4194303,-24>>, <<"f",2097153,-23>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",-3,0>>>>, <<"f",4194303,-28>>, <<"f",2097153,-27>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",3,-2>>>>, <<"f",11863279,-22>>, <<"f",11863287,-22>>>>,
   <<<<"pow",<<"f",1,2>>,<<"f",7,-1>>>>, <<"f",4194303,-15>>, <<"f",2097153,-14>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",1,-1>>>>, <<"f",11097081,-22>>, <<"f",11097089,-22>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",3,-1>>>>, <<"f",4854973,-18>>, <<"f",4854977,-18>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",-1,-1>>>>, <<"f",12682379,-25>>, <<"f",12682387,-25>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",5,-1>>>>, <<"f",4248101,-15>>, <<"f",4248105,-15>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",1,-2>>>>, <<"f",13644709,-23>>, <<"f",13644717,-23>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",-3,-1>>>>, <<"f",3623537,-26>>, <<"f",3623539,-26>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",-1,1>>>>, <<"f",10956545,-29>>, <<"f",10956553,-29>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",-1,0>>>>, <<"f",9586977,-26>>, <<"f",9586985,-26>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",-3,0>>>>, <<"f",12521767,-32>>, <<"f",12521775,-32>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",3,-2>>>>, <<"f",9025125,-21>>, <<"f",9025133,-21>>>>,
   <<<<"pow",<<"f",7,0>>,<<"f",7,-1>>>>, <<"f",3717089,-12>>, <<"f",3717091,-12>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",1,-1>>>>, <<"f",4194303,-23>>, <<"f",2097153,-22>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",3,-1>>>>, <<"f",4194303,-25>>, <<"f",2097153,-24>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",-1,-1>>>>, <<"f",4194303,-21>>, <<"f",2097153,-20>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",5,-1>>>>, <<"f",4194303,-27>>, <<"f",2097153,-26>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",1,-2>>>>, <<"f",11863279,-24>>, <<"f",11863287,-24>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",-3,-1>>>>, <<"f",4194303,-19>>, <<"f",2097153,-18>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",-1,1>>>>, <<"f",4194303,-18>>, <<"f",2097153,-17>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",-1,0>>>>, <<"f",4194303,-20>>, <<"f",2097153,-19>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",-3,0>>>>, <<"f",4194303,-16>>, <<"f",2097153,-15>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",3,-2>>>>, <<"f",11863279,-25>>, <<"f",11863287,-25>>>>,
   <<<<"pow",<<"f",1,-2>>,<<"f",7,-1>>>>, <<"f",4194303,-29>>, <<"f",2097153,-28>>>>
>>
=============================================================================
