//! AArch64 system registers: name, the library's constant, and the encoding
//! op0:op1:CRn:CRm:op2 it must have.
use gdbstub_arch::aarch64::reg::id::AArch64RegId as R;

pub const SYS: &[(&str, R, u16)] = &[
    ("OSDTRRX_EL1", R::OSDTRRX_EL1, 32770),
    ("DBGBVR0_EL1", R::DBGBVR0_EL1, 32772),
    ("DBGBCR0_EL1", R::DBGBCR0_EL1, 32773),
    ("DBGWVR0_EL1", R::DBGWVR0_EL1, 32774),
    ("DBGWCR0_EL1", R::DBGWCR0_EL1, 32775),
    ("DBGBVR1_EL1", R::DBGBVR1_EL1, 32780),
    ("DBGBCR1_EL1", R::DBGBCR1_EL1, 32781),
    ("DBGWVR1_EL1", R::DBGWVR1_EL1, 32782),
    ("DBGWCR1_EL1", R::DBGWCR1_EL1, 32783),
    ("MDCCINT_EL1", R::MDCCINT_EL1, 32784),
    ("MDSCR_EL1", R::MDSCR_EL1, 32786),
    ("DBGBVR2_EL1", R::DBGBVR2_EL1, 32788),
    ("DBGBCR2_EL1", R::DBGBCR2_EL1, 32789),
    ("DBGWVR2_EL1", R::DBGWVR2_EL1, 32790),
    ("DBGWCR2_EL1", R::DBGWCR2_EL1, 32791),
    ("OSDTRTX_EL1", R::OSDTRTX_EL1, 32794),
    ("DBGBVR3_EL1", R::DBGBVR3_EL1, 32796),
    ("DBGBCR3_EL1", R::DBGBCR3_EL1, 32797),
    ("DBGWVR3_EL1", R::DBGWVR3_EL1, 32798),
    ("DBGWCR3_EL1", R::DBGWCR3_EL1, 32799),
    ("DBGBVR4_EL1", R::DBGBVR4_EL1, 32804),
    ("DBGBCR4_EL1", R::DBGBCR4_EL1, 32805),
    ("DBGWVR4_EL1", R::DBGWVR4_EL1, 32806),
    ("DBGWCR4_EL1", R::DBGWCR4_EL1, 32807),
    ("DBGBVR5_EL1", R::DBGBVR5_EL1, 32812),
    ("DBGBCR5_EL1", R::DBGBCR5_EL1, 32813),
    ("DBGWVR5_EL1", R::DBGWVR5_EL1, 32814),
    ("DBGWCR5_EL1", R::DBGWCR5_EL1, 32815),
    ("OSECCR_EL1", R::OSECCR_EL1, 32818),
    ("DBGBVR6_EL1", R::DBGBVR6_EL1, 32820),
    ("DBGBCR6_EL1", R::DBGBCR6_EL1, 32821),
    ("DBGWVR6_EL1", R::DBGWVR6_EL1, 32822),
    ("DBGWCR6_EL1", R::DBGWCR6_EL1, 32823),
    ("DBGBVR7_EL1", R::DBGBVR7_EL1, 32828),
    ("DBGBCR7_EL1", R::DBGBCR7_EL1, 32829),
    ("DBGWVR7_EL1", R::DBGWVR7_EL1, 32830),
    ("DBGWCR7_EL1", R::DBGWCR7_EL1, 32831),
    ("DBGBVR8_EL1", R::DBGBVR8_EL1, 32836),
    ("DBGBCR8_EL1", R::DBGBCR8_EL1, 32837),
    ("DBGWVR8_EL1", R::DBGWVR8_EL1, 32838),
    ("DBGWCR8_EL1", R::DBGWCR8_EL1, 32839),
    ("DBGBVR9_EL1", R::DBGBVR9_EL1, 32844),
    ("DBGBCR9_EL1", R::DBGBCR9_EL1, 32845),
    ("DBGWVR9_EL1", R::DBGWVR9_EL1, 32846),
    ("DBGWCR9_EL1", R::DBGWCR9_EL1, 32847),
    ("DBGBVR10_EL1", R::DBGBVR10_EL1, 32852),
    ("DBGBCR10_EL1", R::DBGBCR10_EL1, 32853),
    ("DBGWVR10_EL1", R::DBGWVR10_EL1, 32854),
    ("DBGWCR10_EL1", R::DBGWCR10_EL1, 32855),
    ("DBGBVR11_EL1", R::DBGBVR11_EL1, 32860),
    ("DBGBCR11_EL1", R::DBGBCR11_EL1, 32861),
    ("DBGWVR11_EL1", R::DBGWVR11_EL1, 32862),
    ("DBGWCR11_EL1", R::DBGWCR11_EL1, 32863),
    ("DBGBVR12_EL1", R::DBGBVR12_EL1, 32868),
    ("DBGBCR12_EL1", R::DBGBCR12_EL1, 32869),
    ("DBGWVR12_EL1", R::DBGWVR12_EL1, 32870),
    ("DBGWCR12_EL1", R::DBGWCR12_EL1, 32871),
    ("DBGBVR13_EL1", R::DBGBVR13_EL1, 32876),
    ("DBGBCR13_EL1", R::DBGBCR13_EL1, 32877),
    ("DBGWVR13_EL1", R::DBGWVR13_EL1, 32878),
    ("DBGWCR13_EL1", R::DBGWCR13_EL1, 32879),
    ("DBGBVR14_EL1", R::DBGBVR14_EL1, 32884),
    ("DBGBCR14_EL1", R::DBGBCR14_EL1, 32885),
    ("DBGWVR14_EL1", R::DBGWVR14_EL1, 32886),
    ("DBGWCR14_EL1", R::DBGWCR14_EL1, 32887),
    ("DBGBVR15_EL1", R::DBGBVR15_EL1, 32892),
    ("DBGBCR15_EL1", R::DBGBCR15_EL1, 32893),
    ("DBGWVR15_EL1", R::DBGWVR15_EL1, 32894),
    ("DBGWCR15_EL1", R::DBGWCR15_EL1, 32895),
    ("MDRAR_EL1", R::MDRAR_EL1, 32896),
    ("OSLAR_EL1", R::OSLAR_EL1, 32900),
    ("OSLSR_EL1", R::OSLSR_EL1, 32908),
    ("OSDLR_EL1", R::OSDLR_EL1, 32924),
    ("DBGPRCR_EL1", R::DBGPRCR_EL1, 32932),
    ("DBGCLAIMSET_EL1", R::DBGCLAIMSET_EL1, 33734),
    ("DBGCLAIMCLR_EL1", R::DBGCLAIMCLR_EL1, 33742),
    ("DBGAUTHSTATUS_EL1", R::DBGAUTHSTATUS_EL1, 33782),
    ("TRCTRACEIDR", R::TRCTRACEIDR, 34817),
    ("TRCVICTLR", R::TRCVICTLR, 34818),
    ("TRCSEQEVR0", R::TRCSEQEVR0, 34820),
    ("TRCCNTRLDVR0", R::TRCCNTRLDVR0, 34821),
    ("TRCIDR8", R::TRCIDR8, 34822),
    ("TRCIMSPEC0", R::TRCIMSPEC0, 34823),
    ("TRCPRGCTLR", R::TRCPRGCTLR, 34824),
    ("TRCQCTLR", R::TRCQCTLR, 34825),
    ("TRCVIIECTLR", R::TRCVIIECTLR, 34826),
    ("TRCSEQEVR1", R::TRCSEQEVR1, 34828),
    ("TRCCNTRLDVR1", R::TRCCNTRLDVR1, 34829),
    ("TRCIDR9", R::TRCIDR9, 34830),
    ("TRCIMSPEC1", R::TRCIMSPEC1, 34831),
    ("TRCVISSCTLR", R::TRCVISSCTLR, 34834),
    ("TRCSEQEVR2", R::TRCSEQEVR2, 34836),
    ("TRCCNTRLDVR2", R::TRCCNTRLDVR2, 34837),
    ("TRCIDR10", R::TRCIDR10, 34838),
    ("TRCIMSPEC2", R::TRCIMSPEC2, 34839),
    ("TRCSTATR", R::TRCSTATR, 34840),
    ("TRCVIPCSSCTLR", R::TRCVIPCSSCTLR, 34842),
    ("TRCCNTRLDVR3", R::TRCCNTRLDVR3, 34845),
    ("TRCIDR11", R::TRCIDR11, 34846),
    ("TRCIMSPEC3", R::TRCIMSPEC3, 34847),
    ("TRCCONFIGR", R::TRCCONFIGR, 34848),
    ("TRCCNTCTLR0", R::TRCCNTCTLR0, 34853),
    ("TRCIDR12", R::TRCIDR12, 34854),
    ("TRCIMSPEC4", R::TRCIMSPEC4, 34855),
    ("TRCCNTCTLR1", R::TRCCNTCTLR1, 34861),
    ("TRCIDR13", R::TRCIDR13, 34862),
    ("TRCIMSPEC5", R::TRCIMSPEC5, 34863),
    ("TRCAUXCTLR", R::TRCAUXCTLR, 34864),
    ("TRCSEQRSTEVR", R::TRCSEQRSTEVR, 34868),
    ("TRCCNTCTLR2", R::TRCCNTCTLR2, 34869),
    ("TRCIMSPEC6", R::TRCIMSPEC6, 34871),
    ("TRCSEQSTR", R::TRCSEQSTR, 34876),
    ("TRCCNTCTLR3", R::TRCCNTCTLR3, 34877),
    ("TRCIMSPEC7", R::TRCIMSPEC7, 34879),
    ("TRCEVENTCTL0R", R::TRCEVENTCTL0R, 34880),
    ("TRCEXTINSELR0", R::TRCEXTINSELR0, 34884),
    ("TRCCNTVR0", R::TRCCNTVR0, 34885),
    ("TRCIDR0", R::TRCIDR0, 34887),
    ("TRCEVENTCTL1R", R::TRCEVENTCTL1R, 34888),
    ("TRCEXTINSELR1", R::TRCEXTINSELR1, 34892),
    ("TRCCNTVR1", R::TRCCNTVR1, 34893),
    ("TRCIDR1", R::TRCIDR1, 34895),
    ("TRCRSR", R::TRCRSR, 34896),
    ("TRCEXTINSELR2", R::TRCEXTINSELR2, 34900),
    ("TRCCNTVR2", R::TRCCNTVR2, 34901),
    ("TRCIDR2", R::TRCIDR2, 34903),
    ("TRCSTALLCTLR", R::TRCSTALLCTLR, 34904),
    ("TRCEXTINSELR3", R::TRCEXTINSELR3, 34908),
    ("TRCCNTVR3", R::TRCCNTVR3, 34909),
    ("TRCIDR3", R::TRCIDR3, 34911),
    ("TRCTSCTLR", R::TRCTSCTLR, 34912),
    ("TRCIDR4", R::TRCIDR4, 34919),
    ("TRCSYNCPR", R::TRCSYNCPR, 34920),
    ("TRCIDR5", R::TRCIDR5, 34927),
    ("TRCCCCTLR", R::TRCCCCTLR, 34928),
    ("TRCIDR6", R::TRCIDR6, 34935),
    ("TRCBBCTLR", R::TRCBBCTLR, 34936),
    ("TRCIDR7", R::TRCIDR7, 34943),
    ("TRCRSCTLR16", R::TRCRSCTLR16, 34945),
    ("TRCSSCCR0", R::TRCSSCCR0, 34946),
    ("TRCSSPCICR0", R::TRCSSPCICR0, 34947),
    ("TRCRSCTLR17", R::TRCRSCTLR17, 34953),
    ("TRCSSCCR1", R::TRCSSCCR1, 34954),
    ("TRCSSPCICR1", R::TRCSSPCICR1, 34955),
    ("TRCOSLSR", R::TRCOSLSR, 34956),
    ("TRCRSCTLR2", R::TRCRSCTLR2, 34960),
    ("TRCRSCTLR18", R::TRCRSCTLR18, 34961),
    ("TRCSSCCR2", R::TRCSSCCR2, 34962),
    ("TRCSSPCICR2", R::TRCSSPCICR2, 34963),
    ("TRCRSCTLR3", R::TRCRSCTLR3, 34968),
    ("TRCRSCTLR19", R::TRCRSCTLR19, 34969),
    ("TRCSSCCR3", R::TRCSSCCR3, 34970),
    ("TRCSSPCICR3", R::TRCSSPCICR3, 34971),
    ("TRCRSCTLR4", R::TRCRSCTLR4, 34976),
    ("TRCRSCTLR20", R::TRCRSCTLR20, 34977),
    ("TRCSSCCR4", R::TRCSSCCR4, 34978),
    ("TRCSSPCICR4", R::TRCSSPCICR4, 34979),
    ("TRCRSCTLR5", R::TRCRSCTLR5, 34984),
    ("TRCRSCTLR21", R::TRCRSCTLR21, 34985),
    ("TRCSSCCR5", R::TRCSSCCR5, 34986),
    ("TRCSSPCICR5", R::TRCSSPCICR5, 34987),
    ("TRCRSCTLR6", R::TRCRSCTLR6, 34992),
    ("TRCRSCTLR22", R::TRCRSCTLR22, 34993),
    ("TRCSSCCR6", R::TRCSSCCR6, 34994),
    ("TRCSSPCICR6", R::TRCSSPCICR6, 34995),
    ("TRCRSCTLR7", R::TRCRSCTLR7, 35000),
    ("TRCRSCTLR23", R::TRCRSCTLR23, 35001),
    ("TRCSSCCR7", R::TRCSSCCR7, 35002),
    ("TRCSSPCICR7", R::TRCSSPCICR7, 35003),
    ("TRCRSCTLR8", R::TRCRSCTLR8, 35008),
    ("TRCRSCTLR24", R::TRCRSCTLR24, 35009),
    ("TRCSSCSR0", R::TRCSSCSR0, 35010),
    ("TRCRSCTLR9", R::TRCRSCTLR9, 35016),
    ("TRCRSCTLR25", R::TRCRSCTLR25, 35017),
    ("TRCSSCSR1", R::TRCSSCSR1, 35018),
    ("TRCRSCTLR10", R::TRCRSCTLR10, 35024),
    ("TRCRSCTLR26", R::TRCRSCTLR26, 35025),
    ("TRCSSCSR2", R::TRCSSCSR2, 35026),
    ("TRCRSCTLR11", R::TRCRSCTLR11, 35032),
    ("TRCRSCTLR27", R::TRCRSCTLR27, 35033),
    ("TRCSSCSR3", R::TRCSSCSR3, 35034),
    ("TRCRSCTLR12", R::TRCRSCTLR12, 35040),
    ("TRCRSCTLR28", R::TRCRSCTLR28, 35041),
    ("TRCSSCSR4", R::TRCSSCSR4, 35042),
    ("TRCRSCTLR13", R::TRCRSCTLR13, 35048),
    ("TRCRSCTLR29", R::TRCRSCTLR29, 35049),
    ("TRCSSCSR5", R::TRCSSCSR5, 35050),
    ("TRCRSCTLR14", R::TRCRSCTLR14, 35056),
    ("TRCRSCTLR30", R::TRCRSCTLR30, 35057),
    ("TRCSSCSR6", R::TRCSSCSR6, 35058),
    ("TRCRSCTLR15", R::TRCRSCTLR15, 35064),
    ("TRCRSCTLR31", R::TRCRSCTLR31, 35065),
    ("TRCSSCSR7", R::TRCSSCSR7, 35066),
    ("TRCACVR0", R::TRCACVR0, 35072),
    ("TRCACVR8", R::TRCACVR8, 35073),
    ("TRCACATR0", R::TRCACATR0, 35074),
    ("TRCACATR8", R::TRCACATR8, 35075),
    ("TRCACVR1", R::TRCACVR1, 35088),
    ("TRCACVR9", R::TRCACVR9, 35089),
    ("TRCACATR1", R::TRCACATR1, 35090),
    ("TRCACATR9", R::TRCACATR9, 35091),
    ("TRCACVR2", R::TRCACVR2, 35104),
    ("TRCACVR10", R::TRCACVR10, 35105),
    ("TRCACATR2", R::TRCACATR2, 35106),
    ("TRCACATR10", R::TRCACATR10, 35107),
    ("TRCACVR3", R::TRCACVR3, 35120),
    ("TRCACVR11", R::TRCACVR11, 35121),
    ("TRCACATR3", R::TRCACATR3, 35122),
    ("TRCACATR11", R::TRCACATR11, 35123),
    ("TRCACVR4", R::TRCACVR4, 35136),
    ("TRCACVR12", R::TRCACVR12, 35137),
    ("TRCACATR4", R::TRCACATR4, 35138),
    ("TRCACATR12", R::TRCACATR12, 35139),
    ("TRCACVR5", R::TRCACVR5, 35152),
    ("TRCACVR13", R::TRCACVR13, 35153),
    ("TRCACATR5", R::TRCACATR5, 35154),
    ("TRCACATR13", R::TRCACATR13, 35155),
    ("TRCACVR6", R::TRCACVR6, 35168),
    ("TRCACVR14", R::TRCACVR14, 35169),
    ("TRCACATR6", R::TRCACATR6, 35170),
    ("TRCACATR14", R::TRCACATR14, 35171),
    ("TRCACVR7", R::TRCACVR7, 35184),
    ("TRCACVR15", R::TRCACVR15, 35185),
    ("TRCACATR7", R::TRCACATR7, 35186),
    ("TRCACATR15", R::TRCACATR15, 35187),
    ("TRCCIDCVR0", R::TRCCIDCVR0, 35200),
    ("TRCVMIDCVR0", R::TRCVMIDCVR0, 35201),
    ("TRCCIDCCTLR0", R::TRCCIDCCTLR0, 35202),
    ("TRCCIDCCTLR1", R::TRCCIDCCTLR1, 35210),
    ("TRCCIDCVR1", R::TRCCIDCVR1, 35216),
    ("TRCVMIDCVR1", R::TRCVMIDCVR1, 35217),
    ("TRCVMIDCCTLR0", R::TRCVMIDCCTLR0, 35218),
    ("TRCVMIDCCTLR1", R::TRCVMIDCCTLR1, 35226),
    ("TRCCIDCVR2", R::TRCCIDCVR2, 35232),
    ("TRCVMIDCVR2", R::TRCVMIDCVR2, 35233),
    ("TRCCIDCVR3", R::TRCCIDCVR3, 35248),
    ("TRCVMIDCVR3", R::TRCVMIDCVR3, 35249),
    ("TRCCIDCVR4", R::TRCCIDCVR4, 35264),
    ("TRCVMIDCVR4", R::TRCVMIDCVR4, 35265),
    ("TRCCIDCVR5", R::TRCCIDCVR5, 35280),
    ("TRCVMIDCVR5", R::TRCVMIDCVR5, 35281),
    ("TRCCIDCVR6", R::TRCCIDCVR6, 35296),
    ("TRCVMIDCVR6", R::TRCVMIDCVR6, 35297),
    ("TRCCIDCVR7", R::TRCCIDCVR7, 35312),
    ("TRCVMIDCVR7", R::TRCVMIDCVR7, 35313),
    ("TRCDEVID", R::TRCDEVID, 35735),
    ("TRCCLAIMSET", R::TRCCLAIMSET, 35782),
    ("TRCCLAIMCLR", R::TRCCLAIMCLR, 35790),
    ("TRCAUTHSTATUS", R::TRCAUTHSTATUS, 35830),
    ("TRCDEVARCH", R::TRCDEVARCH, 35838),
    ("BRBINF0_EL1", R::BRBINF0_EL1, 35840),
    ("BRBSRC0_EL1", R::BRBSRC0_EL1, 35841),
    ("BRBTGT0_EL1", R::BRBTGT0_EL1, 35842),
    ("BRBINF16_EL1", R::BRBINF16_EL1, 35844),
    ("BRBSRC16_EL1", R::BRBSRC16_EL1, 35845),
    ("BRBTGT16_EL1", R::BRBTGT16_EL1, 35846),
    ("BRBINF1_EL1", R::BRBINF1_EL1, 35848),
    ("BRBSRC1_EL1", R::BRBSRC1_EL1, 35849),
    ("BRBTGT1_EL1", R::BRBTGT1_EL1, 35850),
    ("BRBINF17_EL1", R::BRBINF17_EL1, 35852),
    ("BRBSRC17_EL1", R::BRBSRC17_EL1, 35853),
    ("BRBTGT17_EL1", R::BRBTGT17_EL1, 35854),
    ("BRBINF2_EL1", R::BRBINF2_EL1, 35856),
    ("BRBSRC2_EL1", R::BRBSRC2_EL1, 35857),
    ("BRBTGT2_EL1", R::BRBTGT2_EL1, 35858),
    ("BRBINF18_EL1", R::BRBINF18_EL1, 35860),
    ("BRBSRC18_EL1", R::BRBSRC18_EL1, 35861),
    ("BRBTGT18_EL1", R::BRBTGT18_EL1, 35862),
    ("BRBINF3_EL1", R::BRBINF3_EL1, 35864),
    ("BRBSRC3_EL1", R::BRBSRC3_EL1, 35865),
    ("BRBTGT3_EL1", R::BRBTGT3_EL1, 35866),
    ("BRBINF19_EL1", R::BRBINF19_EL1, 35868),
    ("BRBSRC19_EL1", R::BRBSRC19_EL1, 35869),
    ("BRBTGT19_EL1", R::BRBTGT19_EL1, 35870),
    ("BRBINF4_EL1", R::BRBINF4_EL1, 35872),
    ("BRBSRC4_EL1", R::BRBSRC4_EL1, 35873),
    ("BRBTGT4_EL1", R::BRBTGT4_EL1, 35874),
    ("BRBINF20_EL1", R::BRBINF20_EL1, 35876),
    ("BRBSRC20_EL1", R::BRBSRC20_EL1, 35877),
    ("BRBTGT20_EL1", R::BRBTGT20_EL1, 35878),
    ("BRBINF5_EL1", R::BRBINF5_EL1, 35880),
    ("BRBSRC5_EL1", R::BRBSRC5_EL1, 35881),
    ("BRBTGT5_EL1", R::BRBTGT5_EL1, 35882),
    ("BRBINF21_EL1", R::BRBINF21_EL1, 35884),
    ("BRBSRC21_EL1", R::BRBSRC21_EL1, 35885),
    ("BRBTGT21_EL1", R::BRBTGT21_EL1, 35886),
    ("BRBINF6_EL1", R::BRBINF6_EL1, 35888),
    ("BRBSRC6_EL1", R::BRBSRC6_EL1, 35889),
    ("BRBTGT6_EL1", R::BRBTGT6_EL1, 35890),
    ("BRBINF22_EL1", R::BRBINF22_EL1, 35892),
    ("BRBSRC22_EL1", R::BRBSRC22_EL1, 35893),
    ("BRBTGT22_EL1", R::BRBTGT22_EL1, 35894),
    ("BRBINF7_EL1", R::BRBINF7_EL1, 35896),
    ("BRBSRC7_EL1", R::BRBSRC7_EL1, 35897),
    ("BRBTGT7_EL1", R::BRBTGT7_EL1, 35898),
    ("BRBINF23_EL1", R::BRBINF23_EL1, 35900),
    ("BRBSRC23_EL1", R::BRBSRC23_EL1, 35901),
    ("BRBTGT23_EL1", R::BRBTGT23_EL1, 35902),
    ("BRBINF8_EL1", R::BRBINF8_EL1, 35904),
    ("BRBSRC8_EL1", R::BRBSRC8_EL1, 35905),
    ("BRBTGT8_EL1", R::BRBTGT8_EL1, 35906),
    ("BRBINF24_EL1", R::BRBINF24_EL1, 35908),
    ("BRBSRC24_EL1", R::BRBSRC24_EL1, 35909),
    ("BRBTGT24_EL1", R::BRBTGT24_EL1, 35910),
    ("BRBINF9_EL1", R::BRBINF9_EL1, 35912),
    ("BRBSRC9_EL1", R::BRBSRC9_EL1, 35913),
    ("BRBTGT9_EL1", R::BRBTGT9_EL1, 35914),
    ("BRBINF25_EL1", R::BRBINF25_EL1, 35916),
    ("BRBSRC25_EL1", R::BRBSRC25_EL1, 35917),
    ("BRBTGT25_EL1", R::BRBTGT25_EL1, 35918),
    ("BRBINF10_EL1", R::BRBINF10_EL1, 35920),
    ("BRBSRC10_EL1", R::BRBSRC10_EL1, 35921),
    ("BRBTGT10_EL1", R::BRBTGT10_EL1, 35922),
    ("BRBINF26_EL1", R::BRBINF26_EL1, 35924),
    ("BRBSRC26_EL1", R::BRBSRC26_EL1, 35925),
    ("BRBTGT26_EL1", R::BRBTGT26_EL1, 35926),
    ("BRBINF11_EL1", R::BRBINF11_EL1, 35928),
    ("BRBSRC11_EL1", R::BRBSRC11_EL1, 35929),
    ("BRBTGT11_EL1", R::BRBTGT11_EL1, 35930),
    ("BRBINF27_EL1", R::BRBINF27_EL1, 35932),
    ("BRBSRC27_EL1", R::BRBSRC27_EL1, 35933),
    ("BRBTGT27_EL1", R::BRBTGT27_EL1, 35934),
    ("BRBINF12_EL1", R::BRBINF12_EL1, 35936),
    ("BRBSRC12_EL1", R::BRBSRC12_EL1, 35937),
    ("BRBTGT12_EL1", R::BRBTGT12_EL1, 35938),
    ("BRBINF28_EL1", R::BRBINF28_EL1, 35940),
    ("BRBSRC28_EL1", R::BRBSRC28_EL1, 35941),
    ("BRBTGT28_EL1", R::BRBTGT28_EL1, 35942),
    ("BRBINF13_EL1", R::BRBINF13_EL1, 35944),
    ("BRBSRC13_EL1", R::BRBSRC13_EL1, 35945),
    ("BRBTGT13_EL1", R::BRBTGT13_EL1, 35946),
    ("BRBINF29_EL1", R::BRBINF29_EL1, 35948),
    ("BRBSRC29_EL1", R::BRBSRC29_EL1, 35949),
    ("BRBTGT29_EL1", R::BRBTGT29_EL1, 35950),
    ("BRBINF14_EL1", R::BRBINF14_EL1, 35952),
    ("BRBSRC14_EL1", R::BRBSRC14_EL1, 35953),
    ("BRBTGT14_EL1", R::BRBTGT14_EL1, 35954),
    ("BRBINF30_EL1", R::BRBINF30_EL1, 35956),
    ("BRBSRC30_EL1", R::BRBSRC30_EL1, 35957),
    ("BRBTGT30_EL1", R::BRBTGT30_EL1, 35958),
    ("BRBINF15_EL1", R::BRBINF15_EL1, 35960),
    ("BRBSRC15_EL1", R::BRBSRC15_EL1, 35961),
    ("BRBTGT15_EL1", R::BRBTGT15_EL1, 35962),
    ("BRBINF31_EL1", R::BRBINF31_EL1, 35964),
    ("BRBSRC31_EL1", R::BRBSRC31_EL1, 35965),
    ("BRBTGT31_EL1", R::BRBTGT31_EL1, 35966),
    ("BRBCR_EL1", R::BRBCR_EL1, 35968),
    ("BRBCR_EL2", R::BRBCR_EL2, 35968),
    ("BRBFCR_EL1", R::BRBFCR_EL1, 35969),
    ("BRBTS_EL1", R::BRBTS_EL1, 35970),
    ("BRBINFINJ_EL1", R::BRBINFINJ_EL1, 35976),
    ("BRBSRCINJ_EL1", R::BRBSRCINJ_EL1, 35977),
    ("BRBTGTINJ_EL1", R::BRBTGTINJ_EL1, 35978),
    ("BRBIDR0_EL1", R::BRBIDR0_EL1, 35984),
    ("MDCCSR_EL0", R::MDCCSR_EL0, 38920),
    ("DBGDTR_EL0", R::DBGDTR_EL0, 38944),
    ("DBGDTRRX_EL0", R::DBGDTRRX_EL0, 38952),
    ("DBGDTRTX_EL0", R::DBGDTRTX_EL0, 38952),
    ("DBGVCR32_EL2", R::DBGVCR32_EL2, 41016),
    ("MIDR_EL1", R::MIDR_EL1, 49152),
    ("MPIDR_EL1", R::MPIDR_EL1, 49157),
    ("REVIDR_EL1", R::REVIDR_EL1, 49158),
    ("ID_PFR0_EL1", R::ID_PFR0_EL1, 49160),
    ("ID_PFR1_EL1", R::ID_PFR1_EL1, 49161),
    ("ID_DFR0_EL1", R::ID_DFR0_EL1, 49162),
    ("ID_AFR0_EL1", R::ID_AFR0_EL1, 49163),
    ("ID_MMFR0_EL1", R::ID_MMFR0_EL1, 49164),
    ("ID_MMFR1_EL1", R::ID_MMFR1_EL1, 49165),
    ("ID_MMFR2_EL1", R::ID_MMFR2_EL1, 49166),
    ("ID_MMFR3_EL1", R::ID_MMFR3_EL1, 49167),
    ("ID_ISAR0_EL1", R::ID_ISAR0_EL1, 49168),
    ("ID_ISAR1_EL1", R::ID_ISAR1_EL1, 49169),
    ("ID_ISAR2_EL1", R::ID_ISAR2_EL1, 49170),
    ("ID_ISAR3_EL1", R::ID_ISAR3_EL1, 49171),
    ("ID_ISAR4_EL1", R::ID_ISAR4_EL1, 49172),
    ("ID_ISAR5_EL1", R::ID_ISAR5_EL1, 49173),
    ("ID_MMFR4_EL1", R::ID_MMFR4_EL1, 49174),
    ("ID_ISAR6_EL1", R::ID_ISAR6_EL1, 49175),
    ("MVFR0_EL1", R::MVFR0_EL1, 49176),
    ("MVFR1_EL1", R::MVFR1_EL1, 49177),
    ("MVFR2_EL1", R::MVFR2_EL1, 49178),
    ("ID_PFR2_EL1", R::ID_PFR2_EL1, 49180),
    ("ID_DFR1_EL1", R::ID_DFR1_EL1, 49181),
    ("ID_MMFR5_EL1", R::ID_MMFR5_EL1, 49182),
    ("ID_AA64PFR0_EL1", R::ID_AA64PFR0_EL1, 49184),
    ("ID_AA64PFR1_EL1", R::ID_AA64PFR1_EL1, 49185),
    ("ID_AA64ZFR0_EL1", R::ID_AA64ZFR0_EL1, 49188),
    ("ID_AA64SMFR0_EL1", R::ID_AA64SMFR0_EL1, 49189),
    ("ID_AA64DFR0_EL1", R::ID_AA64DFR0_EL1, 49192),
    ("ID_AA64DFR1_EL1", R::ID_AA64DFR1_EL1, 49193),
    ("ID_AA64AFR0_EL1", R::ID_AA64AFR0_EL1, 49196),
    ("ID_AA64AFR1_EL1", R::ID_AA64AFR1_EL1, 49197),
    ("ID_AA64ISAR0_EL1", R::ID_AA64ISAR0_EL1, 49200),
    ("ID_AA64ISAR1_EL1", R::ID_AA64ISAR1_EL1, 49201),
    ("ID_AA64ISAR2_EL1", R::ID_AA64ISAR2_EL1, 49202),
    ("ID_AA64MMFR0_EL1", R::ID_AA64MMFR0_EL1, 49208),
    ("ID_AA64MMFR1_EL1", R::ID_AA64MMFR1_EL1, 49209),
    ("ID_AA64MMFR2_EL1", R::ID_AA64MMFR2_EL1, 49210),
    ("SCTLR_EL1", R::SCTLR_EL1, 49280),
    ("ACTLR_EL1", R::ACTLR_EL1, 49281),
    ("CPACR_EL1", R::CPACR_EL1, 49282),
    ("RGSR_EL1", R::RGSR_EL1, 49285),
    ("GCR_EL1", R::GCR_EL1, 49286),
    ("ZCR_EL1", R::ZCR_EL1, 49296),
    ("TRFCR_EL1", R::TRFCR_EL1, 49297),
    ("SMPRI_EL1", R::SMPRI_EL1, 49300),
    ("SMCR_EL1", R::SMCR_EL1, 49302),
    ("TTBR0_EL1", R::TTBR0_EL1, 49408),
    ("TTBR1_EL1", R::TTBR1_EL1, 49409),
    ("TCR_EL1", R::TCR_EL1, 49410),
    ("APIAKeyLo_EL1", R::APIAKEYLO_EL1, 49416),
    ("APIAKeyHi_EL1", R::APIAKEYHI_EL1, 49417),
    ("APIBKeyLo_EL1", R::APIBKEYLO_EL1, 49418),
    ("APIBKeyHi_EL1", R::APIBKEYHI_EL1, 49419),
    ("APDAKeyLo_EL1", R::APDAKEYLO_EL1, 49424),
    ("APDAKeyHi_EL1", R::APDAKEYHI_EL1, 49425),
    ("APDBKeyLo_EL1", R::APDBKEYLO_EL1, 49426),
    ("APDBKeyHi_EL1", R::APDBKEYHI_EL1, 49427),
    ("APGAKeyLo_EL1", R::APGAKEYLO_EL1, 49432),
    ("APGAKeyHi_EL1", R::APGAKEYHI_EL1, 49433),
    ("SPSR_EL1", R::SPSR_EL1, 49664),
    ("ELR_EL1", R::ELR_EL1, 49665),
    ("SP_EL0", R::SP_EL0, 49672),
    ("ICC_PMR_EL1", R::ICC_PMR_EL1, 49712),
    ("ICV_PMR_EL1", R::ICV_PMR_EL1, 49712),
    ("AFSR0_EL1", R::AFSR0_EL1, 49800),
    ("AFSR1_EL1", R::AFSR1_EL1, 49801),
    ("ESR_EL1", R::ESR_EL1, 49808),
    ("ERRIDR_EL1", R::ERRIDR_EL1, 49816),
    ("ERRSELR_EL1", R::ERRSELR_EL1, 49817),
    ("ERXFR_EL1", R::ERXFR_EL1, 49824),
    ("ERXCTLR_EL1", R::ERXCTLR_EL1, 49825),
    ("ERXSTATUS_EL1", R::ERXSTATUS_EL1, 49826),
    ("ERXADDR_EL1", R::ERXADDR_EL1, 49827),
    ("ERXPFGF_EL1", R::ERXPFGF_EL1, 49828),
    ("ERXPFGCTL_EL1", R::ERXPFGCTL_EL1, 49829),
    ("ERXPFGCDN_EL1", R::ERXPFGCDN_EL1, 49830),
    ("ERXMISC0_EL1", R::ERXMISC0_EL1, 49832),
    ("ERXMISC1_EL1", R::ERXMISC1_EL1, 49833),
    ("ERXMISC2_EL1", R::ERXMISC2_EL1, 49834),
    ("ERXMISC3_EL1", R::ERXMISC3_EL1, 49835),
    ("TFSR_EL1", R::TFSR_EL1, 49840),
    ("TFSRE0_EL1", R::TFSRE0_EL1, 49841),
    ("FAR_EL1", R::FAR_EL1, 49920),
    ("PAR_EL1", R::PAR_EL1, 50080),
    ("PMSCR_EL1", R::PMSCR_EL1, 50376),
    ("PMSNEVFR_EL1", R::PMSNEVFR_EL1, 50377),
    ("PMSICR_EL1", R::PMSICR_EL1, 50378),
    ("PMSIRR_EL1", R::PMSIRR_EL1, 50379),
    ("PMSFCR_EL1", R::PMSFCR_EL1, 50380),
    ("PMSEVFR_EL1", R::PMSEVFR_EL1, 50381),
    ("PMSLATFR_EL1", R::PMSLATFR_EL1, 50382),
    ("PMSIDR_EL1", R::PMSIDR_EL1, 50383),
    ("PMBLIMITR_EL1", R::PMBLIMITR_EL1, 50384),
    ("PMBPTR_EL1", R::PMBPTR_EL1, 50385),
    ("PMBSR_EL1", R::PMBSR_EL1, 50387),
    ("PMBIDR_EL1", R::PMBIDR_EL1, 50391),
    ("TRBLIMITR_EL1", R::TRBLIMITR_EL1, 50392),
    ("TRBPTR_EL1", R::TRBPTR_EL1, 50393),
    ("TRBBASER_EL1", R::TRBBASER_EL1, 50394),
    ("TRBSR_EL1", R::TRBSR_EL1, 50395),
    ("TRBMAR_EL1", R::TRBMAR_EL1, 50396),
    ("TRBTRG_EL1", R::TRBTRG_EL1, 50398),
    ("TRBIDR_EL1", R::TRBIDR_EL1, 50399),
    ("PMINTENSET_EL1", R::PMINTENSET_EL1, 50417),
    ("PMINTENCLR_EL1", R::PMINTENCLR_EL1, 50418),
    ("PMMIR_EL1", R::PMMIR_EL1, 50422),
    ("MAIR_EL1", R::MAIR_EL1, 50448),
    ("AMAIR_EL1", R::AMAIR_EL1, 50456),
    ("LORSA_EL1", R::LORSA_EL1, 50464),
    ("LOREA_EL1", R::LOREA_EL1, 50465),
    ("LORN_EL1", R::LORN_EL1, 50466),
    ("LORC_EL1", R::LORC_EL1, 50467),
    ("MPAMIDR_EL1", R::MPAMIDR_EL1, 50468),
    ("LORID_EL1", R::LORID_EL1, 50471),
    ("MPAM1_EL1", R::MPAM1_EL1, 50472),
    ("MPAM0_EL1", R::MPAM0_EL1, 50473),
    ("MPAMSM_EL1", R::MPAMSM_EL1, 50475),
    ("VBAR_EL1", R::VBAR_EL1, 50688),
    ("RVBAR_EL1", R::RVBAR_EL1, 50689),
    ("RMR_EL1", R::RMR_EL1, 50690),
    ("ISR_EL1", R::ISR_EL1, 50696),
    ("DISR_EL1", R::DISR_EL1, 50697),
    ("ICC_IAR0_EL1", R::ICC_IAR0_EL1, 50752),
    ("ICV_IAR0_EL1", R::ICV_IAR0_EL1, 50752),
    ("ICC_EOIR0_EL1", R::ICC_EOIR0_EL1, 50753),
    ("ICV_EOIR0_EL1", R::ICV_EOIR0_EL1, 50753),
    ("ICC_HPPIR0_EL1", R::ICC_HPPIR0_EL1, 50754),
    ("ICV_HPPIR0_EL1", R::ICV_HPPIR0_EL1, 50754),
    ("ICC_BPR0_EL1", R::ICC_BPR0_EL1, 50755),
    ("ICV_BPR0_EL1", R::ICV_BPR0_EL1, 50755),
    ("ICC_AP0R0_EL1", R::ICC_AP0R0_EL1, 50756),
    ("ICV_AP0R0_EL1", R::ICV_AP0R0_EL1, 50756),
    ("ICC_AP0R1_EL1", R::ICC_AP0R1_EL1, 50757),
    ("ICV_AP0R1_EL1", R::ICV_AP0R1_EL1, 50757),
    ("ICC_AP0R2_EL1", R::ICC_AP0R2_EL1, 50758),
    ("ICV_AP0R2_EL1", R::ICV_AP0R2_EL1, 50758),
    ("ICC_AP0R3_EL1", R::ICC_AP0R3_EL1, 50759),
    ("ICV_AP0R3_EL1", R::ICV_AP0R3_EL1, 50759),
    ("ICC_AP1R0_EL1", R::ICC_AP1R0_EL1, 50760),
    ("ICV_AP1R0_EL1", R::ICV_AP1R0_EL1, 50760),
    ("ICC_AP1R1_EL1", R::ICC_AP1R1_EL1, 50761),
    ("ICV_AP1R1_EL1", R::ICV_AP1R1_EL1, 50761),
    ("ICC_AP1R2_EL1", R::ICC_AP1R2_EL1, 50762),
    ("ICV_AP1R2_EL1", R::ICV_AP1R2_EL1, 50762),
    ("ICC_AP1R3_EL1", R::ICC_AP1R3_EL1, 50763),
    ("ICV_AP1R3_EL1", R::ICV_AP1R3_EL1, 50763),
    ("ICC_NMIAR1_EL1", R::ICC_NMIAR1_EL1, 50765),
    ("ICV_NMIAR1_EL1", R::ICV_NMIAR1_EL1, 50765),
    ("ICC_DIR_EL1", R::ICC_DIR_EL1, 50777),
    ("ICV_DIR_EL1", R::ICV_DIR_EL1, 50777),
    ("ICC_RPR_EL1", R::ICC_RPR_EL1, 50779),
    ("ICV_RPR_EL1", R::ICV_RPR_EL1, 50779),
    ("ICC_SGI1R_EL1", R::ICC_SGI1R_EL1, 50781),
    ("ICC_ASGI1R_EL1", R::ICC_ASGI1R_EL1, 50782),
    ("ICC_SGI0R_EL1", R::ICC_SGI0R_EL1, 50783),
    ("ICC_IAR1_EL1", R::ICC_IAR1_EL1, 50784),
    ("ICV_IAR1_EL1", R::ICV_IAR1_EL1, 50784),
    ("ICC_EOIR1_EL1", R::ICC_EOIR1_EL1, 50785),
    ("ICV_EOIR1_EL1", R::ICV_EOIR1_EL1, 50785),
    ("ICC_HPPIR1_EL1", R::ICC_HPPIR1_EL1, 50786),
    ("ICV_HPPIR1_EL1", R::ICV_HPPIR1_EL1, 50786),
    ("ICC_BPR1_EL1", R::ICC_BPR1_EL1, 50787),
    ("ICV_BPR1_EL1", R::ICV_BPR1_EL1, 50787),
    ("ICC_CTLR_EL1", R::ICC_CTLR_EL1, 50788),
    ("ICV_CTLR_EL1", R::ICV_CTLR_EL1, 50788),
    ("ICC_SRE_EL1", R::ICC_SRE_EL1, 50789),
    ("ICC_IGRPEN0_EL1", R::ICC_IGRPEN0_EL1, 50790),
    ("ICV_IGRPEN0_EL1", R::ICV_IGRPEN0_EL1, 50790),
    ("ICC_IGRPEN1_EL1", R::ICC_IGRPEN1_EL1, 50791),
    ("ICV_IGRPEN1_EL1", R::ICV_IGRPEN1_EL1, 50791),
    ("CONTEXTIDR_EL1", R::CONTEXTIDR_EL1, 50817),
    ("TPIDR_EL1", R::TPIDR_EL1, 50820),
    ("ACCDATA_EL1", R::ACCDATA_EL1, 50821),
    ("SCXTNUM_EL1", R::SCXTNUM_EL1, 50823),
    ("CNTKCTL_EL1", R::CNTKCTL_EL1, 50952),
    ("CCSIDR_EL1", R::CCSIDR_EL1, 51200),
    ("CLIDR_EL1", R::CLIDR_EL1, 51201),
    ("CCSIDR2_EL1", R::CCSIDR2_EL1, 51202),
    ("GMID_EL1", R::GMID_EL1, 51204),
    ("SMIDR_EL1", R::SMIDR_EL1, 51206),
    ("AIDR_EL1", R::AIDR_EL1, 51207),
    ("CSSELR_EL1", R::CSSELR_EL1, 53248),
    ("CTR_EL0", R::CTR_EL0, 55297),
    ("DCZID_EL0", R::DCZID_EL0, 55303),
    ("RNDR", R::RNDR, 55584),
    ("RNDRRS", R::RNDRRS, 55585),
    ("SVCR", R::SVCR, 55826),
    ("FPCR", R::FPCR, 55840),
    ("FPSR", R::FPSR, 55841),
    ("DSPSR_EL0", R::DSPSR_EL0, 55848),
    ("DLR_EL0", R::DLR_EL0, 55849),
    ("PMCR_EL0", R::PMCR_EL0, 56544),
    ("PMCNTENSET_EL0", R::PMCNTENSET_EL0, 56545),
    ("PMCNTENCLR_EL0", R::PMCNTENCLR_EL0, 56546),
    ("PMOVSCLR_EL0", R::PMOVSCLR_EL0, 56547),
    ("PMSWINC_EL0", R::PMSWINC_EL0, 56548),
    ("PMSELR_EL0", R::PMSELR_EL0, 56549),
    ("PMCEID0_EL0", R::PMCEID0_EL0, 56550),
    ("PMCEID1_EL0", R::PMCEID1_EL0, 56551),
    ("PMCCNTR_EL0", R::PMCCNTR_EL0, 56552),
    ("PMXEVTYPER_EL0", R::PMXEVTYPER_EL0, 56553),
    ("PMXEVCNTR_EL0", R::PMXEVCNTR_EL0, 56554),
    ("PMUSERENR_EL0", R::PMUSERENR_EL0, 56560),
    ("PMOVSSET_EL0", R::PMOVSSET_EL0, 56563),
    ("TPIDR_EL0", R::TPIDR_EL0, 56962),
    ("TPIDRRO_EL0", R::TPIDRRO_EL0, 56963),
    ("TPIDR2_EL0", R::TPIDR2_EL0, 56965),
    ("SCXTNUM_EL0", R::SCXTNUM_EL0, 56967),
    ("AMCR_EL0", R::AMCR_EL0, 56976),
    ("AMCFGR_EL0", R::AMCFGR_EL0, 56977),
    ("AMCGCR_EL0", R::AMCGCR_EL0, 56978),
    ("AMUSERENR_EL0", R::AMUSERENR_EL0, 56979),
    ("AMCNTENCLR0_EL0", R::AMCNTENCLR0_EL0, 56980),
    ("AMCNTENSET0_EL0", R::AMCNTENSET0_EL0, 56981),
    ("AMCG1IDR_EL0", R::AMCG1IDR_EL0, 56982),
    ("AMCNTENCLR1_EL0", R::AMCNTENCLR1_EL0, 56984),
    ("AMCNTENSET1_EL0", R::AMCNTENSET1_EL0, 56985),
    ("AMEVCNTR00_EL0", R::AMEVCNTR00_EL0, 56992),
    ("AMEVCNTR01_EL0", R::AMEVCNTR01_EL0, 56993),
    ("AMEVCNTR02_EL0", R::AMEVCNTR02_EL0, 56994),
    ("AMEVCNTR03_EL0", R::AMEVCNTR03_EL0, 56995),
    ("AMEVTYPER00_EL0", R::AMEVTYPER00_EL0, 57008),
    ("AMEVTYPER01_EL0", R::AMEVTYPER01_EL0, 57009),
    ("AMEVTYPER02_EL0", R::AMEVTYPER02_EL0, 57010),
    ("AMEVTYPER03_EL0", R::AMEVTYPER03_EL0, 57011),
    ("AMEVCNTR10_EL0", R::AMEVCNTR10_EL0, 57056),
    ("AMEVCNTR11_EL0", R::AMEVCNTR11_EL0, 57057),
    ("AMEVCNTR12_EL0", R::AMEVCNTR12_EL0, 57058),
    ("AMEVCNTR13_EL0", R::AMEVCNTR13_EL0, 57059),
    ("AMEVCNTR14_EL0", R::AMEVCNTR14_EL0, 57060),
    ("AMEVCNTR15_EL0", R::AMEVCNTR15_EL0, 57061),
    ("AMEVCNTR16_EL0", R::AMEVCNTR16_EL0, 57062),
    ("AMEVCNTR17_EL0", R::AMEVCNTR17_EL0, 57063),
    ("AMEVCNTR18_EL0", R::AMEVCNTR18_EL0, 57064),
    ("AMEVCNTR19_EL0", R::AMEVCNTR19_EL0, 57065),
    ("AMEVCNTR110_EL0", R::AMEVCNTR110_EL0, 57066),
    ("AMEVCNTR111_EL0", R::AMEVCNTR111_EL0, 57067),
    ("AMEVCNTR112_EL0", R::AMEVCNTR112_EL0, 57068),
    ("AMEVCNTR113_EL0", R::AMEVCNTR113_EL0, 57069),
    ("AMEVCNTR114_EL0", R::AMEVCNTR114_EL0, 57070),
    ("AMEVCNTR115_EL0", R::AMEVCNTR115_EL0, 57071),
    ("AMEVTYPER10_EL0", R::AMEVTYPER10_EL0, 57072),
    ("AMEVTYPER11_EL0", R::AMEVTYPER11_EL0, 57073),
    ("AMEVTYPER12_EL0", R::AMEVTYPER12_EL0, 57074),
    ("AMEVTYPER13_EL0", R::AMEVTYPER13_EL0, 57075),
    ("AMEVTYPER14_EL0", R::AMEVTYPER14_EL0, 57076),
    ("AMEVTYPER15_EL0", R::AMEVTYPER15_EL0, 57077),
    ("AMEVTYPER16_EL0", R::AMEVTYPER16_EL0, 57078),
    ("AMEVTYPER17_EL0", R::AMEVTYPER17_EL0, 57079),
    ("AMEVTYPER18_EL0", R::AMEVTYPER18_EL0, 57080),
    ("AMEVTYPER19_EL0", R::AMEVTYPER19_EL0, 57081),
    ("AMEVTYPER110_EL0", R::AMEVTYPER110_EL0, 57082),
    ("AMEVTYPER111_EL0", R::AMEVTYPER111_EL0, 57083),
    ("AMEVTYPER112_EL0", R::AMEVTYPER112_EL0, 57084),
    ("AMEVTYPER113_EL0", R::AMEVTYPER113_EL0, 57085),
    ("AMEVTYPER114_EL0", R::AMEVTYPER114_EL0, 57086),
    ("AMEVTYPER115_EL0", R::AMEVTYPER115_EL0, 57087),
    ("CNTFRQ_EL0", R::CNTFRQ_EL0, 57088),
    ("CNTPCT_EL0", R::CNTPCT_EL0, 57089),
    ("CNTVCT_EL0", R::CNTVCT_EL0, 57090),
    ("CNTPCTSS_EL0", R::CNTPCTSS_EL0, 57093),
    ("CNTVCTSS_EL0", R::CNTVCTSS_EL0, 57094),
    ("CNTP_TVAL_EL0", R::CNTP_TVAL_EL0, 57104),
    ("CNTP_CTL_EL0", R::CNTP_CTL_EL0, 57105),
    ("CNTP_CVAL_EL0", R::CNTP_CVAL_EL0, 57106),
    ("CNTV_TVAL_EL0", R::CNTV_TVAL_EL0, 57112),
    ("CNTV_CTL_EL0", R::CNTV_CTL_EL0, 57113),
    ("CNTV_CVAL_EL0", R::CNTV_CVAL_EL0, 57114),
    ("PMEVCNTR0_EL0", R::PMEVCNTR0_EL0, 57152),
    ("PMEVCNTR1_EL0", R::PMEVCNTR1_EL0, 57153),
    ("PMEVCNTR2_EL0", R::PMEVCNTR2_EL0, 57154),
    ("PMEVCNTR3_EL0", R::PMEVCNTR3_EL0, 57155),
    ("PMEVCNTR4_EL0", R::PMEVCNTR4_EL0, 57156),
    ("PMEVCNTR5_EL0", R::PMEVCNTR5_EL0, 57157),
    ("PMEVCNTR6_EL0", R::PMEVCNTR6_EL0, 57158),
    ("PMEVCNTR7_EL0", R::PMEVCNTR7_EL0, 57159),
    ("PMEVCNTR8_EL0", R::PMEVCNTR8_EL0, 57160),
    ("PMEVCNTR9_EL0", R::PMEVCNTR9_EL0, 57161),
    ("PMEVCNTR10_EL0", R::PMEVCNTR10_EL0, 57162),
    ("PMEVCNTR11_EL0", R::PMEVCNTR11_EL0, 57163),
    ("PMEVCNTR12_EL0", R::PMEVCNTR12_EL0, 57164),
    ("PMEVCNTR13_EL0", R::PMEVCNTR13_EL0, 57165),
    ("PMEVCNTR14_EL0", R::PMEVCNTR14_EL0, 57166),
    ("PMEVCNTR15_EL0", R::PMEVCNTR15_EL0, 57167),
    ("PMEVCNTR16_EL0", R::PMEVCNTR16_EL0, 57168),
    ("PMEVCNTR17_EL0", R::PMEVCNTR17_EL0, 57169),
    ("PMEVCNTR18_EL0", R::PMEVCNTR18_EL0, 57170),
    ("PMEVCNTR19_EL0", R::PMEVCNTR19_EL0, 57171),
    ("PMEVCNTR20_EL0", R::PMEVCNTR20_EL0, 57172),
    ("PMEVCNTR21_EL0", R::PMEVCNTR21_EL0, 57173),
    ("PMEVCNTR22_EL0", R::PMEVCNTR22_EL0, 57174),
    ("PMEVCNTR23_EL0", R::PMEVCNTR23_EL0, 57175),
    ("PMEVCNTR24_EL0", R::PMEVCNTR24_EL0, 57176),
    ("PMEVCNTR25_EL0", R::PMEVCNTR25_EL0, 57177),
    ("PMEVCNTR26_EL0", R::PMEVCNTR26_EL0, 57178),
    ("PMEVCNTR27_EL0", R::PMEVCNTR27_EL0, 57179),
    ("PMEVCNTR28_EL0", R::PMEVCNTR28_EL0, 57180),
    ("PMEVCNTR29_EL0", R::PMEVCNTR29_EL0, 57181),
    ("PMEVCNTR30_EL0", R::PMEVCNTR30_EL0, 57182),
    ("PMEVTYPER0_EL0", R::PMEVTYPER0_EL0, 57184),
    ("PMEVTYPER1_EL0", R::PMEVTYPER1_EL0, 57185),
    ("PMEVTYPER2_EL0", R::PMEVTYPER2_EL0, 57186),
    ("PMEVTYPER3_EL0", R::PMEVTYPER3_EL0, 57187),
    ("PMEVTYPER4_EL0", R::PMEVTYPER4_EL0, 57188),
    ("PMEVTYPER5_EL0", R::PMEVTYPER5_EL0, 57189),
    ("PMEVTYPER6_EL0", R::PMEVTYPER6_EL0, 57190),
    ("PMEVTYPER7_EL0", R::PMEVTYPER7_EL0, 57191),
    ("PMEVTYPER8_EL0", R::PMEVTYPER8_EL0, 57192),
    ("PMEVTYPER9_EL0", R::PMEVTYPER9_EL0, 57193),
    ("PMEVTYPER10_EL0", R::PMEVTYPER10_EL0, 57194),
    ("PMEVTYPER11_EL0", R::PMEVTYPER11_EL0, 57195),
    ("PMEVTYPER12_EL0", R::PMEVTYPER12_EL0, 57196),
    ("PMEVTYPER13_EL0", R::PMEVTYPER13_EL0, 57197),
    ("PMEVTYPER14_EL0", R::PMEVTYPER14_EL0, 57198),
    ("PMEVTYPER15_EL0", R::PMEVTYPER15_EL0, 57199),
    ("PMEVTYPER16_EL0", R::PMEVTYPER16_EL0, 57200),
    ("PMEVTYPER17_EL0", R::PMEVTYPER17_EL0, 57201),
    ("PMEVTYPER18_EL0", R::PMEVTYPER18_EL0, 57202),
    ("PMEVTYPER19_EL0", R::PMEVTYPER19_EL0, 57203),
    ("PMEVTYPER20_EL0", R::PMEVTYPER20_EL0, 57204),
    ("PMEVTYPER21_EL0", R::PMEVTYPER21_EL0, 57205),
    ("PMEVTYPER22_EL0", R::PMEVTYPER22_EL0, 57206),
    ("PMEVTYPER23_EL0", R::PMEVTYPER23_EL0, 57207),
    ("PMEVTYPER24_EL0", R::PMEVTYPER24_EL0, 57208),
    ("PMEVTYPER25_EL0", R::PMEVTYPER25_EL0, 57209),
    ("PMEVTYPER26_EL0", R::PMEVTYPER26_EL0, 57210),
    ("PMEVTYPER27_EL0", R::PMEVTYPER27_EL0, 57211),
    ("PMEVTYPER28_EL0", R::PMEVTYPER28_EL0, 57212),
    ("PMEVTYPER29_EL0", R::PMEVTYPER29_EL0, 57213),
    ("PMEVTYPER30_EL0", R::PMEVTYPER30_EL0, 57214),
    ("PMCCFILTR_EL0", R::PMCCFILTR_EL0, 57215),
    ("VPIDR_EL2", R::VPIDR_EL2, 57344),
    ("VMPIDR_EL2", R::VMPIDR_EL2, 57349),
    ("SCTLR_EL2", R::SCTLR_EL2, 57472),
    ("ACTLR_EL2", R::ACTLR_EL2, 57473),
    ("HCR_EL2", R::HCR_EL2, 57480),
    ("MDCR_EL2", R::MDCR_EL2, 57481),
    ("CPTR_EL2", R::CPTR_EL2, 57482),
    ("HSTR_EL2", R::HSTR_EL2, 57483),
    ("HFGRTR_EL2", R::HFGRTR_EL2, 57484),
    ("HFGWTR_EL2", R::HFGWTR_EL2, 57485),
    ("HFGITR_EL2", R::HFGITR_EL2, 57486),
    ("HACR_EL2", R::HACR_EL2, 57487),
    ("ZCR_EL2", R::ZCR_EL2, 57488),
    ("TRFCR_EL2", R::TRFCR_EL2, 57489),
    ("HCRX_EL2", R::HCRX_EL2, 57490),
    ("SMPRIMAP_EL2", R::SMPRIMAP_EL2, 57493),
    ("SMCR_EL2", R::SMCR_EL2, 57494),
    ("SDER32_EL2", R::SDER32_EL2, 57497),
    ("TTBR0_EL2", R::TTBR0_EL2, 57600),
    ("TTBR1_EL2", R::TTBR1_EL2, 57601),
    ("TCR_EL2", R::TCR_EL2, 57602),
    ("VTTBR_EL2", R::VTTBR_EL2, 57608),
    ("VTCR_EL2", R::VTCR_EL2, 57610),
    ("VNCR_EL2", R::VNCR_EL2, 57616),
    ("VSTTBR_EL2", R::VSTTBR_EL2, 57648),
    ("VSTCR_EL2", R::VSTCR_EL2, 57650),
    ("DACR32_EL2", R::DACR32_EL2, 57728),
    ("HDFGRTR_EL2", R::HDFGRTR_EL2, 57740),
    ("HDFGWTR_EL2", R::HDFGWTR_EL2, 57741),
    ("HAFGRTR_EL2", R::HAFGRTR_EL2, 57742),
    ("SPSR_EL2", R::SPSR_EL2, 57856),
    ("ELR_EL2", R::ELR_EL2, 57857),
    ("SP_EL1", R::SP_EL1, 57864),
    ("SPSR_irq", R::SPSR_IRQ, 57880),
    ("SPSR_abt", R::SPSR_ABT, 57881),
    ("SPSR_und", R::SPSR_UND, 57882),
    ("SPSR_fiq", R::SPSR_FIQ, 57883),
    ("IFSR32_EL2", R::IFSR32_EL2, 57985),
    ("AFSR0_EL2", R::AFSR0_EL2, 57992),
    ("AFSR1_EL2", R::AFSR1_EL2, 57993),
    ("ESR_EL2", R::ESR_EL2, 58000),
    ("VSESR_EL2", R::VSESR_EL2, 58003),
    ("FPEXC32_EL2", R::FPEXC32_EL2, 58008),
    ("TFSR_EL2", R::TFSR_EL2, 58032),
    ("FAR_EL2", R::FAR_EL2, 58112),
    ("HPFAR_EL2", R::HPFAR_EL2, 58116),
    ("PMSCR_EL2", R::PMSCR_EL2, 58568),
    ("MAIR_EL2", R::MAIR_EL2, 58640),
    ("AMAIR_EL2", R::AMAIR_EL2, 58648),
    ("MPAMHCR_EL2", R::MPAMHCR_EL2, 58656),
    ("MPAMVPMV_EL2", R::MPAMVPMV_EL2, 58657),
    ("MPAM2_EL2", R::MPAM2_EL2, 58664),
    ("MPAMVPM0_EL2", R::MPAMVPM0_EL2, 58672),
    ("MPAMVPM1_EL2", R::MPAMVPM1_EL2, 58673),
    ("MPAMVPM2_EL2", R::MPAMVPM2_EL2, 58674),
    ("MPAMVPM3_EL2", R::MPAMVPM3_EL2, 58675),
    ("MPAMVPM4_EL2", R::MPAMVPM4_EL2, 58676),
    ("MPAMVPM5_EL2", R::MPAMVPM5_EL2, 58677),
    ("MPAMVPM6_EL2", R::MPAMVPM6_EL2, 58678),
    ("MPAMVPM7_EL2", R::MPAMVPM7_EL2, 58679),
    ("VBAR_EL2", R::VBAR_EL2, 58880),
    ("RVBAR_EL2", R::RVBAR_EL2, 58881),
    ("RMR_EL2", R::RMR_EL2, 58882),
    ("VDISR_EL2", R::VDISR_EL2, 58889),
    ("ICH_AP0R0_EL2", R::ICH_AP0R0_EL2, 58944),
    ("ICH_AP0R1_EL2", R::ICH_AP0R1_EL2, 58945),
    ("ICH_AP0R2_EL2", R::ICH_AP0R2_EL2, 58946),
    ("ICH_AP0R3_EL2", R::ICH_AP0R3_EL2, 58947),
    ("ICH_AP1R0_EL2", R::ICH_AP1R0_EL2, 58952),
    ("ICH_AP1R1_EL2", R::ICH_AP1R1_EL2, 58953),
    ("ICH_AP1R2_EL2", R::ICH_AP1R2_EL2, 58954),
    ("ICH_AP1R3_EL2", R::ICH_AP1R3_EL2, 58955),
    ("ICC_SRE_EL2", R::ICC_SRE_EL2, 58957),
    ("ICH_HCR_EL2", R::ICH_HCR_EL2, 58968),
    ("ICH_VTR_EL2", R::ICH_VTR_EL2, 58969),
    ("ICH_MISR_EL2", R::ICH_MISR_EL2, 58970),
    ("ICH_EISR_EL2", R::ICH_EISR_EL2, 58971),
    ("ICH_ELRSR_EL2", R::ICH_ELRSR_EL2, 58973),
    ("ICH_VMCR_EL2", R::ICH_VMCR_EL2, 58975),
    ("ICH_LR0_EL2", R::ICH_LR0_EL2, 58976),
    ("ICH_LR1_EL2", R::ICH_LR1_EL2, 58977),
    ("ICH_LR2_EL2", R::ICH_LR2_EL2, 58978),
    ("ICH_LR3_EL2", R::ICH_LR3_EL2, 58979),
    ("ICH_LR4_EL2", R::ICH_LR4_EL2, 58980),
    ("ICH_LR5_EL2", R::ICH_LR5_EL2, 58981),
    ("ICH_LR6_EL2", R::ICH_LR6_EL2, 58982),
    ("ICH_LR7_EL2", R::ICH_LR7_EL2, 58983),
    ("ICH_LR8_EL2", R::ICH_LR8_EL2, 58984),
    ("ICH_LR9_EL2", R::ICH_LR9_EL2, 58985),
    ("ICH_LR10_EL2", R::ICH_LR10_EL2, 58986),
    ("ICH_LR11_EL2", R::ICH_LR11_EL2, 58987),
    ("ICH_LR12_EL2", R::ICH_LR12_EL2, 58988),
    ("ICH_LR13_EL2", R::ICH_LR13_EL2, 58989),
    ("ICH_LR14_EL2", R::ICH_LR14_EL2, 58990),
    ("ICH_LR15_EL2", R::ICH_LR15_EL2, 58991),
    ("CONTEXTIDR_EL2", R::CONTEXTIDR_EL2, 59009),
    ("TPIDR_EL2", R::TPIDR_EL2, 59010),
    ("SCXTNUM_EL2", R::SCXTNUM_EL2, 59015),
    ("AMEVCNTVOFF00_EL2", R::AMEVCNTVOFF00_EL2, 59072),
    ("AMEVCNTVOFF01_EL2", R::AMEVCNTVOFF01_EL2, 59073),
    ("AMEVCNTVOFF02_EL2", R::AMEVCNTVOFF02_EL2, 59074),
    ("AMEVCNTVOFF03_EL2", R::AMEVCNTVOFF03_EL2, 59075),
    ("AMEVCNTVOFF04_EL2", R::AMEVCNTVOFF04_EL2, 59076),
    ("AMEVCNTVOFF05_EL2", R::AMEVCNTVOFF05_EL2, 59077),
    ("AMEVCNTVOFF06_EL2", R::AMEVCNTVOFF06_EL2, 59078),
    ("AMEVCNTVOFF07_EL2", R::AMEVCNTVOFF07_EL2, 59079),
    ("AMEVCNTVOFF08_EL2", R::AMEVCNTVOFF08_EL2, 59080),
    ("AMEVCNTVOFF09_EL2", R::AMEVCNTVOFF09_EL2, 59081),
    ("AMEVCNTVOFF010_EL2", R::AMEVCNTVOFF010_EL2, 59082),
    ("AMEVCNTVOFF011_EL2", R::AMEVCNTVOFF011_EL2, 59083),
    ("AMEVCNTVOFF012_EL2", R::AMEVCNTVOFF012_EL2, 59084),
    ("AMEVCNTVOFF013_EL2", R::AMEVCNTVOFF013_EL2, 59085),
    ("AMEVCNTVOFF014_EL2", R::AMEVCNTVOFF014_EL2, 59086),
    ("AMEVCNTVOFF015_EL2", R::AMEVCNTVOFF015_EL2, 59087),
    ("AMEVCNTVOFF10_EL2", R::AMEVCNTVOFF10_EL2, 59088),
    ("AMEVCNTVOFF11_EL2", R::AMEVCNTVOFF11_EL2, 59089),
    ("AMEVCNTVOFF12_EL2", R::AMEVCNTVOFF12_EL2, 59090),
    ("AMEVCNTVOFF13_EL2", R::AMEVCNTVOFF13_EL2, 59091),
    ("AMEVCNTVOFF14_EL2", R::AMEVCNTVOFF14_EL2, 59092),
    ("AMEVCNTVOFF15_EL2", R::AMEVCNTVOFF15_EL2, 59093),
    ("AMEVCNTVOFF16_EL2", R::AMEVCNTVOFF16_EL2, 59094),
    ("AMEVCNTVOFF17_EL2", R::AMEVCNTVOFF17_EL2, 59095),
    ("AMEVCNTVOFF18_EL2", R::AMEVCNTVOFF18_EL2, 59096),
    ("AMEVCNTVOFF19_EL2", R::AMEVCNTVOFF19_EL2, 59097),
    ("AMEVCNTVOFF110_EL2", R::AMEVCNTVOFF110_EL2, 59098),
    ("AMEVCNTVOFF111_EL2", R::AMEVCNTVOFF111_EL2, 59099),
    ("AMEVCNTVOFF112_EL2", R::AMEVCNTVOFF112_EL2, 59100),
    ("AMEVCNTVOFF113_EL2", R::AMEVCNTVOFF113_EL2, 59101),
    ("AMEVCNTVOFF114_EL2", R::AMEVCNTVOFF114_EL2, 59102),
    ("AMEVCNTVOFF115_EL2", R::AMEVCNTVOFF115_EL2, 59103),
    ("CNTVOFF_EL2", R::CNTVOFF_EL2, 59139),
    ("CNTPOFF_EL2", R::CNTPOFF_EL2, 59142),
    ("CNTHCTL_EL2", R::CNTHCTL_EL2, 59144),
    ("CNTHP_TVAL_EL2", R::CNTHP_TVAL_EL2, 59152),
    ("CNTHP_CTL_EL2", R::CNTHP_CTL_EL2, 59153),
    ("CNTHP_CVAL_EL2", R::CNTHP_CVAL_EL2, 59154),
    ("CNTHV_TVAL_EL2", R::CNTHV_TVAL_EL2, 59160),
    ("CNTHV_CTL_EL2", R::CNTHV_CTL_EL2, 59161),
    ("CNTHV_CVAL_EL2", R::CNTHV_CVAL_EL2, 59162),
    ("CNTHVS_TVAL_EL2", R::CNTHVS_TVAL_EL2, 59168),
    ("CNTHVS_CTL_EL2", R::CNTHVS_CTL_EL2, 59169),
    ("CNTHVS_CVAL_EL2", R::CNTHVS_CVAL_EL2, 59170),
    ("CNTHPS_TVAL_EL2", R::CNTHPS_TVAL_EL2, 59176),
    ("CNTHPS_CTL_EL2", R::CNTHPS_CTL_EL2, 59177),
    ("CNTHPS_CVAL_EL2", R::CNTHPS_CVAL_EL2, 59178),
    ("SCTLR_EL3", R::SCTLR_EL3, 61568),
    ("ACTLR_EL3", R::ACTLR_EL3, 61569),
    ("SCR_EL3", R::SCR_EL3, 61576),
    ("SDER32_EL3", R::SDER32_EL3, 61577),
    ("CPTR_EL3", R::CPTR_EL3, 61578),
    ("ZCR_EL3", R::ZCR_EL3, 61584),
    ("SMCR_EL3", R::SMCR_EL3, 61590),
    ("MDCR_EL3", R::MDCR_EL3, 61593),
    ("TTBR0_EL3", R::TTBR0_EL3, 61696),
    ("TCR_EL3", R::TCR_EL3, 61698),
    ("GPTBR_EL3", R::GPTBR_EL3, 61708),
    ("GPCCR_EL3", R::GPCCR_EL3, 61710),
    ("SPSR_EL3", R::SPSR_EL3, 61952),
    ("ELR_EL3", R::ELR_EL3, 61953),
    ("SP_EL2", R::SP_EL2, 61960),
    ("AFSR0_EL3", R::AFSR0_EL3, 62088),
    ("AFSR1_EL3", R::AFSR1_EL3, 62089),
    ("ESR_EL3", R::ESR_EL3, 62096),
    ("TFSR_EL3", R::TFSR_EL3, 62128),
    ("FAR_EL3", R::FAR_EL3, 62208),
    ("MFAR_EL3", R::MFAR_EL3, 62213),
    ("MAIR_EL3", R::MAIR_EL3, 62736),
    ("AMAIR_EL3", R::AMAIR_EL3, 62744),
    ("MPAM3_EL3", R::MPAM3_EL3, 62760),
    ("VBAR_EL3", R::VBAR_EL3, 62976),
    ("RVBAR_EL3", R::RVBAR_EL3, 62977),
    ("RMR_EL3", R::RMR_EL3, 62978),
    ("ICC_CTLR_EL3", R::ICC_CTLR_EL3, 63076),
    ("ICC_SRE_EL3", R::ICC_SRE_EL3, 63077),
    ("ICC_IGRPEN1_EL3", R::ICC_IGRPEN1_EL3, 63079),
    ("TPIDR_EL3", R::TPIDR_EL3, 63106),
    ("SCXTNUM_EL3", R::SCXTNUM_EL3, 63111),
    ("CNTPS_TVAL_EL1", R::CNTPS_TVAL_EL1, 65296),
    ("CNTPS_CTL_EL1", R::CNTPS_CTL_EL1, 65297),
    ("CNTPS_CVAL_EL1", R::CNTPS_CVAL_EL1, 65298),
];
