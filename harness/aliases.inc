// alias names of the pinned commit and the language each stands for
{ "bokmal", "nb_NO" },
{ "bokmål", "nb_NO" },
{ "catalan", "ca_ES" },
{ "croatian", "hr_HR" },
{ "czech", "cs_CZ" },
{ "danish", "da_DK" },
{ "dansk", "da_DK" },
{ "deutsch", "de_DE" },
{ "dutch", "nl_NL" },
{ "eesti", "et_EE" },
{ "estonian", "et_EE" },
{ "finnish", "fi_FI" },
{ "français", "fr_FR" },
{ "french", "fr_FR" },
{ "galego", "gl_ES" },
{ "galician", "gl_ES" },
{ "german", "de_DE" },
{ "greek", "el_GR" },
{ "hebrew", "he_IL" },
{ "hrvatski", "hr_HR" },
{ "hungarian", "hu_HU" },
{ "icelandic", "is_IS" },
{ "italian", "it_IT" },
{ "japanese", "ja_JP" },
{ "japanese.euc", "ja_JP" },
{ "japanese.sjis", "ja_JP" },
{ "korean", "ko_KR" },
{ "korean.euc", "ko_KR" },
{ "lithuanian", "lt_LT" },
{ "norwegian", "nb_NO" },
{ "nynorsk", "nn_NO" },
{ "polish", "pl_PL" },
{ "portuguese", "pt_PT" },
{ "romanian", "ro_RO" },
{ "russian", "ru_RU" },
{ "slovak", "sk_SK" },
{ "slovene", "sl_SI" },
{ "slovenian", "sl_SI" },
{ "spanish", "es_ES" },
{ "swedish", "sv_SE" },
{ "thai", "th_TH" },
{ "turkish", "tr_TR" },
