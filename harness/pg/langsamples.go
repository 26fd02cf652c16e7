package pg

// langSamples are the sample texts of Pango (written by C Pango 1.52, without the six languages added since this version)
var langSamples = map[string]string{
	"af": "Ek kan glas eet, maar dit doen my nie skade nie.",
	"ar": "نص حكيم له سر قاطع وذو شأن عظيم مكتوب على ثوب أخضر ومغلف بجلد أزرق.",
	"arn": "Gvxam mincetu apocikvyeh: ñizol ce mamvj ka raq kuse bafkeh mew.",
	"bar": "I koh Glos esa, und es duard ma ned wei.",
	"bg": "Под южно дърво, цъфтящо в синьо, бягаше малко пухкаво зайче.",
	"bi": "Mi save kakae glas, hemi no save katem mi.",
	"bn": "আমি কাঁচ খেতে পারি, তাতে আমার কোনো ক্ষতি হয় না।",
	"bo": "ཤེལ་སྒོ་ཟ་ནས་ང་ན་གི་མ་རེད།",
	"bs": "Fin džip, gluh jež i čvrst konjić dođoše bez moljca.",
	"ca": "Jove xef, porti whisky amb quinze glaçons d'hidrogen, coi!",
	"ch": "Siña yo' chumocho krestat, ti ha na'lalamen yo'.",
	"cs": "Příliš žluťoučký kůň úpěl ďábelské ódy.",
	"cy": "Dw i'n gallu bwyta gwydr, 'dyw e ddim yn gwneud dolur i mi.",
	"da": "Quizdeltagerne spiste jordbær med fløde, mens cirkusklovnen Walther spillede på xylofon.",
	"de": "Zwölf Boxkämpfer jagen Viktor quer über den großen Sylter Deich.",
	"dv": "މާއްދާ 1 – ހުރިހާ އިންސާނުން ވެސް އުފަންވަނީ، ދަރަޖަ އާއި ޙައްޤު ތަކުގައި މިނިވަންކަމާއި ހަމަހަމަކަން ލިބިގެންވާ ބައެއްގެ ގޮތުގައެވެ.",
	"el": "Θέλει αρετή και τόλμη η ελευθερία. (Ανδρέας Κάλβος)",
	"enm": "Ich canne glas eten and hit hirtiþ me nouȝt.",
	"eo": "Eĥoŝanĝo ĉiuĵaŭde.",
	"es": "Jovencillo emponzoñado de whisky: ¡qué figurota exhibe!",
	"et": "See väike mölder jõuab rongile hüpata.",
	"eu": "Kristala jan dezaket, ez dit minik ematen.",
	"fa": "«الا یا اَیُّها السّاقی! اَدِرْ کَأساً وَ ناوِلْها!» که عشق آسان نمود اوّل، ولی افتاد مشکل‌ها!",
	"fi": "Viekas kettu punaturkki laiskan koiran takaa kurkki.",
	"fr": "Voix ambiguë d'un cœur qui, au zéphyr, préfère les jattes de kiwis.",
	"fro": "Je puis mangier del voirre. Ne me nuit.",
	"ga": "Chuaigh bé mhórshách le dlúthspád fíorfhinn trí hata mo dhea-phorcáin bhig.",
	"gd": "S urrainn dhomh gloinne ithe; cha ghoirtich i mi.",
	"gl": "Eu podo xantar cristais e non cortarme.",
	"got": "𐌼𐌰𐌲 𐌲𐌻𐌴𐍃 𐌹̈𐍄𐌰𐌽, 𐌽𐌹 𐌼𐌹𐍃 𐍅𐌿 𐌽𐌳𐌰𐌽 𐌱𐍂𐌹𐌲𐌲𐌹𐌸.",
	"gu": "હું કાચ ખાઇ શકુ છુ અને તેનાથી મને દર્દ નથી થતુ.",
	"gv": "Foddym gee glonney agh cha jean eh gortaghey mee.",
	"haw": "Hiki iaʻu ke ʻai i ke aniani; ʻaʻole nō lā au e ʻeha.",
	"he": "דג סקרן שט לו בים זך אך לפתע פגש חבורה נחמדה שצצה כך.",
	"hi": "नहीं नजर किसी की बुरी नहीं किसी का मुँह काला जो करे सो उपर वाला",
	"hr": "Deblji krojač: zgužvah smeđ filc u tanjušni džepić.",
	"hu": "Egy hűtlen vejét fülöncsípő, dühös mexikói úr Wesselényinél mázol Quitóban.",
	"hy": "Կրնամ ապակի ուտել և ինծի անհանգիստ չըներ։",
	"is": "Kæmi ný öxi hér ykist þjófum nú bæði víl og ádrepa",
	"it": "Ma la volpe, col suo balzo, ha raggiunto il quieto Fido.",
	"ja": "いろはにほへと ちりぬるを 色は匂へど 散りぬるを",
	"jam": "Chruu, a kwik di kwik brong fox a jomp huova di liezi daag de, yu no siit?",
	"jbo": ".o'i mu xagji sofybakni cu zvati le purdi",
	"jv": "Aku isa mangan beling tanpa lara.",
	"ka": "მინას ვჭამ და არა მტკივა.",
	"km": "ខ្ញុំអាចញុំកញ្ចក់បាន ដោយគ្មានបញ្ហារ",
	"kn": "ನಾನು ಗಾಜನ್ನು ತಿನ್ನಬಲ್ಲೆ ಮತ್ತು ಅದರಿಂದ ನನಗೆ ನೋವಾಗುವುದಿಲ್ಲ.",
	"ko": "다람쥐 헌 쳇바퀴에 타고파",
	"kw": "Mý a yl dybry gwéder hag éf ny wra ow ankenya.",
	"la": "Sic surgens, dux, zelotypos quam karus haberis",
	"lo": "ຂອ້ຍກິນແກ້ວໄດ້ໂດຍທີ່ມັນບໍ່ໄດ້ເຮັດໃຫ້ຂອ້ຍເຈັບ",
	"lt": "Įlinkdama fechtuotojo špaga sublykčiojusi pragręžė apvalų arbūzą.",
	"lv": "Sarkanās jūrascūciņas peld pa jūru.",
	"map": "E koʻana e kai i te karahi, mea ʻā, ʻaʻe hauhau.",
	"mk": "Можам да јадам стакло, а не ме штета.",
	"ml": "വേദനയില്ലാതെ കുപ്പിചില്ലു് എനിയ്ക്കു് കഴിയ്ക്കാം.",
	"mn": "ᠪᠢ ᠰᠢᠯᠢ ᠢᠳᠡᠶᠦ ᠴᠢᠳᠠᠨᠠ ᠂ ᠨᠠᠳᠤᠷ ᠬᠣᠤᠷᠠᠳᠠᠢ ᠪᠢᠰᠢ",
	"mr": "मी काच खाऊ शकतो, मला ते दुखत नाही.",
	"ms": "Saya boleh makan kaca dan ia tidak mencederakan saya.",
	"my": "ဘာသာပြန်နှင့် စာပေပြုစုရေး ကော်မရှင်",
	"nap": "M' pozz magna' o'vetr, e nun m' fa mal.",
	"nb": "Vår sære Zulu fra badeøya spilte jo whist og quickstep i min taxi.",
	"nl": "Pa's wijze lynx bezag vroom het fikse aquaduct.",
	"nn": "Eg kan eta glas utan å skada meg.",
	"no": "Vår sære Zulu fra badeøya spilte jo whist og quickstep i min taxi.",
	"nv": "Tsésǫʼ yishą́ągo bííníshghah dóó doo shił neezgai da.",
	"oc": "Pòdi manjar de veire, me nafrariá pas.",
	"or": "ମୁଁ କାଚ ଖାଇପାରେ ଏବଂ ତାହା ମୋର କ୍ଷତି କରିନଥାଏ।.",
	"pa": "ਮੈਂ ਗਲਾਸ ਖਾ ਸਕਦਾ ਹਾਂ ਅਤੇ ਇਸ ਨਾਲ ਮੈਨੂੰ ਕੋਈ ਤਕਲੀਫ ਨਹੀਂ.",
	"pcd": "Ch'peux mingi du verre, cha m'foé mie n'ma.",
	"pl": "Pchnąć w tę łódź jeża lub ośm skrzyń fig.",
	"pt": "Vejam a bruxa da raposa Salta-Pocinhas e o cão feliz que dorme regalado.",
	"pt-br": "À noite, vovô Kowalsky vê o ímã cair no pé do pingüim queixoso e vovó põe açúcar no chá de tâmaras do jabuti feliz.",
	"ro": "Fumegând hipnotic sașiul azvârle mreje în bălți.",
	"ru": "В чащах юга жил бы цитрус? Да, но фальшивый экземпляр!",
	"sa": "काचं शक्नोम्यत्तुम् । नोपहिनस्ति माम् ॥",
	"scn": "Puotsu mangiari u vitru, nun mi fa mali.",
	"si": "මනොපුබ්‌බඞ්‌ගමා ධම්‌මා, මනොසෙට්‌ඨා මනොමයා; මනසා චෙ පදුට්‌ඨෙන, භාසති වා කරොති වා; තතො නං දුක්‌ඛමන්‌වෙති, චක්‌කංව වහතො පදං.",
	"sk": "Starý kôň na hŕbe kníh žuje tíško povädnuté ruže, na stĺpe sa ďateľ učí kvákať novú ódu o živote.",
	"sl": "Šerif bo za vajo spet kuhal domače žgance.",
	"sq": "Unë mund të ha qelq dhe nuk më gjen gjë.",
	"sr": "Чешће цeђење мрeжастим џаком побољшава фертилизацију генских хибрида.",
	"sv": "Flygande bäckasiner söka strax hwila på mjuka tuvor.",
	"swg": "I kå Glas frässa, ond des macht mr nix!",
	"ta": "நான் கண்ணாடி சாப்பிடுவேன், அதனால் எனக்கு ஒரு கேடும் வராது.",
	"te": "నేను గాజు తినగలను అయినా నాకు యేమీ కాదు.",
	"th": "เป็นมนุษย์สุดประเสริฐเลิศคุณค่า - กว่าบรรดาฝูงสัตว์เดรัจฉาน - จงฝ่าฟันพัฒนาวิชาการ อย่าล้างผลาญฤๅเข่นฆ่าบีฑาใคร - ไม่ถือโทษโกรธแช่งซัดฮึดฮัดด่า - หัดอภัยเหมือนกีฬาอัชฌาสัย - ปฏิบัติประพฤติกฎกำหนดใจ - พูดจาให้จ๊ะ ๆ จ๋า ๆ น่าฟังเอยฯ",
	"tl": "Kaya kong kumain nang bubog at hindi ako masaktan.",
	"tr": "Pijamalı hasta yağız şoföre çabucak güvendi.",
	"tw": "Metumi awe tumpan, ɜnyɜ me hwee.",
	"uk": "Чуєш їх, доцю, га? Кумедна ж ти, прощайся без ґольфів!",
	"ur": "میں کانچ کھا سکتا ہوں اور مجھے تکلیف نہیں ہوتی ۔",
	"vec": "Mi posso magnare el vetro, no'l me fa mae.",
	"vi": "Con sói nâu nhảy qua con chó lười.",
	"wa": "Dji pou magnî do vêre, çoula m' freut nén må.",
	"yi": "איך קען עסן גלאָז און עס טוט מיר נישט װײ.",
	"yo": "Mo lè je̩ dígí, kò ní pa mí lára.",
	"zh-cn": "我能吞下玻璃而不伤身体。",
	"zh-mo": "我能吞下玻璃而不傷身體。",
	"zh-sg": "我能吞下玻璃而不伤身体。",
	"zh-tw": "我能吞下玻璃而不傷身體。",
	"zlm": "Saya boleh makan kaca dan ia tidak mencederakan saya.",
}
