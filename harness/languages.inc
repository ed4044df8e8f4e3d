// the languages known at the pinned commit: code, country, modifier
{ "aa", "", "" },
{ "af", "", "" },
{ "af", "ZA", "" },
{ "am", "", "" },
{ "ar", "", "" },
{ "ar", "AR", "" },
{ "ar", "OM", "" },
{ "ar", "SA", "" },
{ "ar", "SY", "" },
{ "ar", "TN", "" },
{ "as", "", "" },
{ "ast", "", "" },
{ "ay", "", "" },
{ "az", "", "" },
{ "az", "IR", "" },
{ "be", "", "" },
{ "be", "", "latin" },
{ "bg", "", "" },
{ "bg", "BG", "" },
{ "bn", "", "" },
{ "bn", "BD", "" },
{ "bn", "IN", "" },
{ "bo", "", "" },
{ "br", "", "" },
{ "bs", "", "" },
{ "bs", "BA", "" },
{ "bs", "BS", "" },
{ "ca", "ES", "valencia" },
{ "ca", "ES", "" },
{ "ca", "", "valencia" },
{ "ca", "", "" },
{ "cmn", "", "" },
{ "co", "", "" },
{ "cs", "", "" },
{ "cs", "CZ", "" },
{ "cy", "", "" },
{ "cy", "GB", "" },
{ "cz", "", "" },
{ "da", "", "" },
{ "da", "DK", "" },
{ "de", "", "" },
{ "de", "AT", "" },
{ "de", "CH", "" },
{ "de", "DE", "" },
{ "dk", "", "" },
{ "dz", "", "" },
{ "el", "", "" },
{ "el", "GR", "" },
{ "en", "", "" },
{ "en", "AU", "" },
{ "en", "CA", "" },
{ "en", "GB", "" },
{ "en", "US", "" },
{ "en", "ZA", "" },
{ "en", "", "boldquot" },
{ "en", "", "quot" },
{ "en", "US", "piglatin" },
{ "eo", "", "" },
{ "es", "", "" },
{ "es", "AR", "" },
{ "es", "CL", "" },
{ "es", "CO", "" },
{ "es", "CR", "" },
{ "es", "DO", "" },
{ "es", "EC", "" },
{ "es", "ES", "" },
{ "es", "GT", "" },
{ "es", "HN", "" },
{ "es", "LA", "" },
{ "es", "MX", "" },
{ "es", "NI", "" },
{ "es", "PA", "" },
{ "es", "PE", "" },
{ "es", "PR", "" },
{ "es", "SV", "" },
{ "es", "UY", "" },
{ "es", "VE", "" },
{ "et", "", "" },
{ "et", "EE", "" },
{ "et", "ET", "" },
{ "eu", "", "" },
{ "eu", "ES", "" },
{ "fa", "", "" },
{ "fa", "AF", "" },
{ "fa", "IR", "" },
{ "fi", "", "" },
{ "fi", "FI", "" },
{ "fo", "", "" },
{ "fo", "FO", "" },
{ "fr", "", "" },
{ "fr", "CA", "" },
{ "fr", "CH", "" },
{ "fr", "FR", "" },
{ "fr", "LU", "" },
{ "fy", "", "" },
{ "ga", "", "" },
{ "gd", "", "" },
{ "gl", "", "" },
{ "gl", "ES", "" },
{ "gn", "", "" },
{ "gu", "", "" },
{ "gv", "", "" },
{ "ha", "", "" },
{ "he", "", "" },
{ "he", "IL", "" },
{ "hi", "", "" },
{ "hi", "IN", "" },
{ "hr", "", "" },
{ "hr", "HR", "" },
{ "hu", "", "" },
{ "hu", "HU", "" },
{ "hy", "", "" },
{ "ia", "", "" },
{ "id", "", "" },
{ "id", "ID", "" },
{ "is", "", "" },
{ "is", "IS", "" },
{ "it", "", "" },
{ "it", "CH", "" },
{ "it", "IT", "" },
{ "iu", "", "" },
{ "ja", "", "" },
{ "ja", "JP", "" },
{ "ka", "", "" },
{ "kk", "", "" },
{ "kl", "", "" },
{ "km", "", "" },
{ "km", "KH", "" },
{ "kn", "", "" },
{ "ko", "", "" },
{ "ko", "KR", "" },
{ "ku", "", "" },
{ "kw", "", "" },
{ "ky", "", "" },
{ "la", "", "" },
{ "lo", "", "" },
{ "lt", "", "" },
{ "lt", "LT", "" },
{ "lv", "", "" },
{ "lv", "LV", "" },
{ "jbo", "", "" },
{ "mg", "", "" },
{ "mi", "", "" },
{ "mk", "", "" },
{ "mk", "MK", "" },
{ "ml", "", "" },
{ "mn", "", "" },
{ "mr", "", "" },
{ "ms", "", "" },
{ "ms", "MY", "" },
{ "mt", "", "" },
{ "my", "", "" },
{ "my", "MM", "" },
{ "nb", "", "" },
{ "nb", "NO", "" },
{ "nds", "", "" },
{ "ne", "", "" },
{ "nl", "", "" },
{ "nl", "BE", "" },
{ "nl", "NL", "" },
{ "nn", "", "" },
{ "nn", "NO", "" },
{ "no", "", "" },
{ "no", "NO", "" },
{ "no", "NY", "" },
{ "nr", "", "" },
{ "oc", "", "" },
{ "om", "", "" },
{ "or", "", "" },
{ "pa", "", "" },
{ "pl", "", "" },
{ "pl", "PL", "" },
{ "ps", "", "" },
{ "pt", "", "" },
{ "pt", "BR", "" },
{ "pt", "PT", "" },
{ "qu", "", "" },
{ "rm", "", "" },
{ "ro", "", "" },
{ "ro", "RO", "" },
{ "ru", "", "" },
{ "ru", "RU", "" },
{ "rw", "", "" },
{ "sa", "", "" },
{ "sd", "", "" },
{ "se", "", "" },
{ "se", "NO", "" },
{ "si", "", "" },
{ "sk", "", "" },
{ "sk", "SK", "" },
{ "sl", "", "" },
{ "sl", "SI", "" },
{ "sl", "SL", "" },
{ "sm", "", "" },
{ "so", "", "" },
{ "sp", "", "" },
{ "sq", "", "" },
{ "sq", "AL", "" },
{ "sr", "", "" },
{ "sr", "YU", "" },
{ "sr", "", "ije" },
{ "sr", "", "latin" },
{ "sr", "", "Latn" },
{ "ss", "", "" },
{ "st", "", "" },
{ "sv", "", "" },
{ "sv", "SE", "" },
{ "sv", "SV", "" },
{ "sw", "", "" },
{ "ta", "", "" },
{ "te", "", "" },
{ "tg", "", "" },
{ "th", "", "" },
{ "th", "TH", "" },
{ "ti", "", "" },
{ "tk", "", "" },
{ "tl", "", "" },
{ "to", "", "" },
{ "tr", "", "" },
{ "tr", "TR", "" },
{ "ts", "", "" },
{ "tt", "", "" },
{ "ug", "", "" },
{ "uk", "", "" },
{ "uk", "UA", "" },
{ "ur", "", "" },
{ "ur", "PK", "" },
{ "uz", "", "" },
{ "uz", "", "cyrillic" },
{ "vi", "", "" },
{ "vi", "VN", "" },
{ "wa", "", "" },
{ "wo", "", "" },
{ "xh", "", "" },
{ "yi", "", "" },
{ "yo", "", "" },
{ "zh", "", "" },
{ "zh", "CN", "" },
{ "zh", "HK", "" },
{ "zh", "TW", "" },
{ "zu", "", "" },
