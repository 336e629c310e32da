//! ISO 639 codes: two letters, three letters terminological, three letters bibliographic.

pub const CODES: [(&str, &str, &str); 146] = [
    ("ab", "abk", "abk"), ("af", "afr", "afr"), ("ak", "aka", "aka"), ("am", "amh", "amh"),
    ("ar", "ara", "ara"), ("as", "asm", "asm"), ("ay", "aym", "aym"), ("az", "aze", "aze"),
    ("ba", "bak", "bak"), ("be", "bel", "bel"), ("bg", "bul", "bul"), ("bm", "bam", "bam"),
    ("bn", "ben", "ben"), ("bo", "bod", "tib"), ("bs", "bos", "bos"), ("ca", "cat", "cat"),
    ("co", "cos", "cos"), ("cs", "ces", "cze"), ("cv", "chv", "chv"), ("cy", "cym", "wel"),
    ("da", "dan", "dan"), ("de", "deu", "ger"), ("dv", "div", "div"), ("dz", "dzo", "dzo"),
    ("ee", "ewe", "ewe"), ("el", "ell", "gre"), ("en", "eng", "eng"), ("es", "spa", "spa"),
    ("et", "est", "est"), ("eu", "eus", "baq"), ("fa", "fas", "per"), ("ff", "ful", "ful"),
    ("fi", "fin", "fin"), ("fj", "fij", "fij"), ("fr", "fra", "fre"), ("fy", "fry", "fry"),
    ("ga", "gle", "gle"), ("gd", "gla", "gla"), ("gl", "glg", "glg"), ("gn", "grn", "grn"),
    ("gu", "guj", "guj"), ("ha", "hau", "hau"), ("he", "heb", "heb"), ("hi", "hin", "hin"),
    ("hr", "hrv", "hrv"), ("ht", "hat", "hat"), ("hu", "hun", "hun"), ("hy", "hye", "arm"),
    ("id", "ind", "ind"), ("ig", "ibo", "ibo"), ("is", "isl", "ice"), ("it", "ita", "ita"),
    ("ja", "jpn", "jpn"), ("ka", "kat", "geo"), ("kg", "kon", "kon"), ("ki", "kik", "kik"),
    ("kk", "kaz", "kaz"), ("kl", "kal", "kal"), ("km", "khm", "khm"), ("kn", "kan", "kan"),
    ("ko", "kor", "kor"), ("kr", "kau", "kau"), ("ks", "kas", "kas"), ("ku", "kur", "kur"),
    ("ky", "kir", "kir"), ("lb", "ltz", "ltz"), ("lg", "lug", "lug"), ("li", "lim", "lim"),
    ("ln", "lin", "lin"), ("lo", "lao", "lao"), ("lt", "lit", "lit"), ("lv", "lav", "lav"),
    ("mg", "mlg", "mlg"), ("mh", "mah", "mah"), ("mk", "mkd", "mac"), ("ml", "mal", "mal"),
    ("mn", "mon", "mon"), ("mr", "mar", "mar"), ("ms", "msa", "may"), ("mt", "mlt", "mlt"),
    ("my", "mya", "bur"), ("na", "nau", "nau"), ("nd", "nde", "nde"), ("ne", "nep", "nep"),
    ("nl", "nld", "dut"), ("no", "nor", "nor"), ("nr", "nbl", "nbl"), ("ny", "nya", "nya"),
    ("oc", "oci", "oci"), ("om", "orm", "orm"), ("or", "ori", "ori"), ("os", "oss", "oss"),
    ("pa", "pan", "pan"), ("pl", "pol", "pol"), ("ps", "pus", "pus"), ("pt", "por", "por"),
    ("qu", "que", "que"), ("rn", "run", "run"), ("ro", "ron", "rum"), ("ru", "rus", "rus"),
    ("rw", "kin", "kin"), ("sa", "san", "san"), ("sc", "srd", "srd"), ("sd", "snd", "snd"),
    ("sg", "sag", "sag"), ("si", "sin", "sin"), ("sk", "slk", "slo"), ("sl", "slv", "slv"),
    ("sm", "smo", "smo"), ("sn", "sna", "sna"), ("so", "som", "som"), ("sq", "sqi", "alb"),
    ("sr", "srp", "srp"), ("ss", "ssw", "ssw"), ("st", "sot", "sot"), ("su", "sun", "sun"),
    ("sv", "swe", "swe"), ("sw", "swa", "swa"), ("ta", "tam", "tam"), ("te", "tel", "tel"),
    ("tg", "tgk", "tgk"), ("th", "tha", "tha"), ("ti", "tir", "tir"), ("tk", "tuk", "tuk"),
    ("tl", "tgl", "tgl"), ("tn", "tsn", "tsn"), ("to", "ton", "ton"), ("tr", "tur", "tur"),
    ("ts", "tso", "tso"), ("tt", "tat", "tat"), ("tw", "twi", "twi"), ("ty", "tah", "tah"),
    ("ug", "uig", "uig"), ("uk", "ukr", "ukr"), ("ur", "urd", "urd"), ("uz", "uzb", "uzb"),
    ("ve", "ven", "ven"), ("vi", "vie", "vie"), ("wa", "wln", "wln"), ("wo", "wol", "wol"),
    ("xh", "xho", "xho"), ("yi", "yid", "yid"), ("yo", "yor", "yor"), ("za", "zha", "zha"),
    ("zh", "zho", "chi"), ("zu", "zul", "zul"),
];
