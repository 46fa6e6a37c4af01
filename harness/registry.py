"""What each property's check runs."""
REG = {}

REG["C01"] = dict(
    mc=dict(quick=[("MC_Prbs", dict(const=["MaxDeg = 4", "MaxLen = 7"], inv=["ChunkInvariant", "Recurrence", "SeedIsLastBits", "Relational", "Emit"], min=1000, minvec=500))],
            thorough=[("MC_Prbs", dict(const=["MaxDeg = 5", "MaxLen = 9"], inv=["ChunkInvariant", "Recurrence", "SeedIsLastBits", "Relational", "Emit"], min=1000, minvec=500))]),
    tr=dict(module="TR_Prbs", init="PrbsInit", apply="PrbsApply"))

REG["C02"] = dict(
    mc=dict(quick=[("MC_PrbsPeriod", dict(inv=["NonZero", "FullCycle", "Prbs31Maximal"], const=["Sizes = {7, 9, 11, 13, 15}"], min=43648))],
            thorough=[("MC_PrbsPeriod", dict(inv=["NonZero", "FullCycle", "Prbs31Maximal"], const=["Sizes = {7, 9, 11, 13, 15}"], min=43648))]),
    tr=dict(module="TR_Prbs", init="PrbsInit", apply="PrbsApply"))

def _c(*a):
    return list(a)

REG["C03"] = dict(
    mc=dict(quick=[("MC_Pack", dict(const=["MaxK = 4", "MaxBits = 6"], inv=["RoundTrip", "BackAgain", "InRangeInv", "Injective", "Emit"], min=8000, minvec=8000))],
            thorough=[("MC_Pack", dict(const=["MaxK = 5", "MaxBits = 9"], inv=["RoundTrip", "BackAgain", "InRangeInv", "Injective", "Emit"], min=80000, minvec=80000))]),
    tr=dict(module="TR_Symbols", init="PackInit", apply="PackApply"), min_traces=300)
REG["C04"] = dict(
    mc=dict(quick=[("MC_Map", dict(const=["MaxLen = 4"], inv=["Even", "Invertible", "GrayInvolution", "Emit"], min=1900, minvec=1900))],
            thorough=[("MC_Map", dict(const=["MaxLen = 6"], inv=["Even", "Invertible", "GrayInvolution", "Emit"], min=20000, minvec=20000))]),
    tr=dict(module="TR_Symbols", init="MapInit", apply="MapApply"), min_traces=200)
REG["C05"] = dict(
    mc=dict(quick=[("MC_Slice", dict(const=["R = 4"], inv=["Total", "TieOnMid", "Fixed", "Emit"], min=5000, minvec=5000))],
            thorough=[("MC_Slice", dict(const=["R = 6"], inv=["Total", "TieOnMid", "Fixed", "Emit"], min=20000, minvec=20000))]),
    tr=dict(module="TR_Symbols", init="SliceInit", apply="SliceApply"), min_traces=200)
REG["C06"] = dict(
    mc=dict(quick=[("MC_Quant", dict(const=["MaxB = 4", "MaxF = 2", "U = 4"], inv=["Agree", "Exact", "Emit"], min=1000, minvec=1000))],
            thorough=[("MC_Quant", dict(const=["MaxB = 6", "MaxF = 4", "U = 4"], inv=["Agree", "Exact", "Emit"], min=1000, minvec=1000))]),
    tr=dict(module="TR_Symbols", init="QuantInit", apply="QuantApply"), min_traces=200)
_line = ["Machine", "Wave", "Injective", "Clean", "Emit"]
for _p in ("C07", "C08"):
    REG[_p] = dict(
        mc=dict(quick=[("MC_Line", dict(const=["MaxLen = 8", "MaxDiff = 5"], inv=_line, min=2000, minvec=2000))],
                thorough=[("MC_Line", dict(const=["MaxLen = 12", "MaxDiff = 7"], inv=_line, min=30000, minvec=30000))]),
        tr=dict(module="TR_LineCodes", init="LineInit", apply="LineApply"), min_traces=250)
REG["C09"] = dict(
    mc=dict(quick=[("MC_LineErr", dict(const=["MaxMan = 4", "MaxBip = 7"], inv=["FlagsIffIllegal", "Local", "Emit"], min=3000, minvec=3000))],
            thorough=[("MC_LineErr", dict(const=["MaxMan = 7", "MaxBip = 10"], inv=["FlagsIffIllegal", "Local", "Emit"], min=30000, minvec=30000))]),
    tr=dict(module="TR_LineCodes", init="FlagInit", apply="FlagApply"), min_traces=300)
_blk = ["CorrectsUpToHalf", "Bounded", "Linear", "Emit"]
REG["C10"] = dict(
    mc=dict(quick=[("MC_Block", dict(const=["Dims <- DimsQ", "WithHamming = TRUE"], inv=_blk, min=5000, minvec=5000))],
            thorough=[("MC_Block", dict(const=["Dims <- DimsT", "WithHamming = TRUE"], inv=_blk, min=30000, minvec=30000))]),
    tr=dict(module="TR_BlockCode", init="BlockInit", apply="BlockApply"), min_traces=100)
_ce = ["Machine", "Linear", "Shifted", "Emit"]
REG["C11"] = dict(
    mc=dict(quick=[("MC_ConvEnc", dict(const=["Taps = 3", "MaxSteps = 4"], inv=_ce, min=2000, minvec=2000))],
            thorough=[("MC_ConvEnc", dict(const=["Taps = 3", "MaxSteps = 6"], inv=_ce, min=20000, minvec=20000))]),
    tr=dict(module="TR_ConvCode", init="ConvInit", apply="ConvApply"), min_traces=200)
_cd = ["DpIsExhaustive", "Achieved", "CleanIsZero", "Emit"]
REG["C12"] = dict(
    mc=dict(quick=[("MC_ConvDec", dict(const=["MaxBits = 6"], inv=_cd, min=500, minvec=500))],
            thorough=[("MC_ConvDec", dict(const=["MaxBits = 9"], inv=_cd, min=3000, minvec=3000))]),
    tr=dict(module="TR_ConvCode", init="ConvInit", apply="ConvApply"), min_traces=100)
_eq = ["Closed", "NoTie", "Memory", "Emit"]
REG["C13"] = dict(
    mc=dict(quick=[("MC_Equalizer", dict(const=["MaxLen = 4"], inv=_eq, min=5000, minvec=3000))],
            thorough=[("MC_Equalizer", dict(const=["MaxLen = 6"], inv=_eq, min=50000, minvec=30000))]),
    tr=dict(module="TR_Equalizer", init="EqInit", apply="EqApply"), min_traces=200)
_st = ["FormsAgree", "Equation", "Emit"]
REG["C14"] = dict(
    mc=dict(quick=[("MC_Streams", dict(const=["MaxLen = 3", "Bs <- BsQ", "As <- AsQ"], inv=_st, min=5000, minvec=3000))],
            thorough=[("MC_Streams", dict(const=["MaxLen = 5", "Bs <- BsQ", "As <- AsT"], inv=_st, min=50000, minvec=30000))]),
    tr=dict(module="TR_Streams", init="ResInit", apply="StreamApply"), min_traces=200)
_pu = ["Machine", "NoIsi", "Hold", "Insert", "Nyquist", "Even", "Agree", "Emit"]
REG["C15"] = dict(
    mc=dict(quick=[("MC_Pulse", dict(const=["MaxLen = 4", "MaxOsr = 5", "MaxSpan = 3"], inv=_pu, min=3000, minvec=3000))],
            thorough=[("MC_Pulse", dict(const=["MaxLen = 6", "MaxOsr = 8", "MaxSpan = 4"], inv=_pu, min=30000, minvec=30000))]),
    tr=dict(module="TR_Pulse", init="PulseInit", apply="PulseApply"), min_traces=300)
REG["C16"] = dict(
    mc=dict(quick=[("MC_Lock", dict(const=["WithP15 = TRUE", "MaxSym = 4"], inv=["Locks", "Emit"], min=5000, minvec=5000))],
            thorough=[("MC_Lock", dict(const=["WithP15 = TRUE", "MaxSym = 6"], inv=["Locks", "Emit"], min=20000, minvec=20000))]),
    tr=dict(module="TR_Lock", init="LockInit", apply="LockApply"), min_traces=200)
_ck = ["FreeExact", "EconExact", "Distinct", "Emit"]
REG["C17"] = dict(
    mc=dict(quick=[("MC_Checker", dict(const=["FreeLen = 9", "EconLen = 18", "MaxErr = 2", "Stride = 16"], inv=_ck, min=5000, minvec=3000))],
            thorough=[("MC_Checker", dict(const=["FreeLen = 12", "EconLen = 20", "MaxErr = 2", "Stride = 4"], inv=_ck, min=20000, minvec=20000))]),
    tr=dict(module="TR_Checker", init="CheckerInit", apply="CheckerApply"), min_traces=200)
_fr = ["Closed", "OneRagged", "Inverse1", "Emit"]
REG["C18"] = dict(
    mc=dict(quick=[("MC_Framing", dict(const=["MaxN = 9", "MaxLen = 5"], inv=_fr, min=1000, minvec=600))],
            thorough=[("MC_Framing", dict(const=["MaxN = 16", "MaxLen = 7"], inv=_fr, min=3000, minvec=2000))]),
    tr=dict(module="TR_Framing", init="FrameInit", apply="FrameApply"), min_traces=300)
_in = ["FarAgrees", "Reproduces", "SumsToOne", "Unit", "Emit"]
REG["C19"] = dict(
    mc=dict(quick=[("MC_Interp", dict(const=["MaxOrder = 3", "MaxOsr = 4", "NOut = 3"], inv=_in, min=1000, minvec=400))],
            thorough=[("MC_Interp", dict(const=["MaxOrder = 4", "MaxOsr = 4", "NOut = 4"], inv=_in, min=3000, minvec=1500))]),
    tr=dict(module="TR_Interp", init="InterpInit", apply="InterpApply"), min_traces=300)
REG["C20"] = dict(
    mc=dict(quick=[("MC_Eye", dict(const=["MaxSym = 2"], inv=["Machine", "Total", "Emit"], min=5000, minvec=1000))],
            thorough=[("MC_Eye", dict(const=["MaxSym = 2"], inv=["Machine", "Total", "Emit"], min=5000, minvec=1000))]),
    tr=dict(module="TR_Eye", init="EyeInit", apply="EyeApply"), min_traces=100)
_mm = ["Machine", "Direction", "Negation", "Emit"]
REG["C21"] = dict(
    mc=dict(quick=[("MC_Cdr", dict(const=["MaxLen = 4"], inv=_mm, min=5000, minvec=5000))],
            thorough=[("MC_Cdr", dict(const=["MaxLen = 5"], inv=_mm, min=30000, minvec=30000))]),
    tr=dict(module="TR_Cdr", init="CdrInit", apply="CdrApply"), min_traces=200)
_lm = ["Machine", "ExpLaw", "Emit"]
REG["C22"] = dict(
    mc=dict(quick=[("MC_Lms", dict(const=["MaxLen = 4"], inv=_lm, min=4000, minvec=4000))],
            thorough=[("MC_Lms", dict(const=["MaxLen = 5"], inv=_lm, min=30000, minvec=30000))]),
    tr=dict(module="TR_Lms", init="LmsInit", apply="LmsApply"), min_traces=200)
_ch = ["Locks", "Normal", "Inside", "Emit"]
REG["C23"] = dict(
    mc=dict(quick=[("MC_ChanEst", dict(const=["TapVals <- TapsQ", "Configs <- ConfigsQ", "Rots <- RotsQ", "MaxWin = 2"], inv=_ch, min=200, minvec=100))],
            thorough=[("MC_ChanEst", dict(const=["TapVals <- TapsQ", "Configs <- ConfigsQ", "Rots <- RotsQ", "MaxWin = 3"], inv=_ch, min=2000, minvec=1000))]),
    tr=dict(module="TR_ChanEst", init="ChanInit", apply="ChanApply"), min_traces=80)
_ee = ["Exact", "OptInv", "PerturbedWorse", "Bounded", "Emit"]
REG["C24"] = dict(
    mc=dict(quick=[("MC_EqEst", dict(const=["MaxL = 2", "MaxD = 2", "N = 14", "Starts <- StartsQ"], inv=_ee, min=500, minvec=50))],
            thorough=[("MC_EqEst", dict(const=["MaxL = 3", "MaxD = 2", "N = 14", "Starts <- StartsQ"], inv=_ee, min=3000, minvec=300))]),
    tr=dict(module="TR_EqEst", init="EqeInit", apply="EqeApply"), min_traces=100)
REG["C25"] = dict(
    mc=dict(quick=[("MC_Noise", dict(const=["MaxLen = 4", "Bs <- BsQ"], inv=["Memory", "Signal", "Power", "Emit"], min=20000, minvec=300))],
            thorough=[("MC_Noise", dict(const=["MaxLen = 5", "Bs <- BsQ"], inv=["Memory", "Signal", "Power", "Emit"], min=200000, minvec=1000))]),
    tr=dict(module="TR_Noise", init="NoiseInit", apply="NoiseApply"), min_traces=100)
_ct = ["UnitDc", "Stable", "ZerosThere", "AtNyquist", "Commutes", "Emit"]
REG["C28"] = dict(
    mc=dict(quick=[("MC_Ctle", dict(const=["Cs <- CsQ", "MaxP = 2"], inv=_ct, min=700, minvec=600))],
            thorough=[("MC_Ctle", dict(const=["Cs <- CsQ", "MaxP = 3"], inv=_ct, min=15000, minvec=15000))]),
    tr=dict(module="TR_Ctle", init="CtleInit", apply="CtleApply"), min_traces=200)
_pu2 = ["ArgumentsKept", "Deterministic", "NeverBlocked", "Emit"]
REG["C26"] = dict(
    mc=dict(quick=[("MC_Purity", dict(const=["NCalls = 148", "MaxLen = 2"], inv=_pu2, min=8000, minvec=8000))],
            thorough=[("MC_Purity", dict(const=["NCalls = 148", "MaxLen = 2"], inv=_pu2, min=8000, minvec=8000))]),
    tr=dict(module="TR_Purity", init="PureInit", apply="PureApply"), min_traces=50)
_lk = ["SafeW", "InOrder", "Conserve", "Invertible", "Delivered", "Emit"]
REG["C27"] = dict(
    mc=dict(quick=[("MC_Link", dict(const=["Opts <- OptsQ", "Seeds <- SeedsQ", "Frames = 2", "FB = 4", "Chunks = {1, 3}", "MaxSch = 3"], inv=_lk, min=5000, minvec=1500))],
            thorough=[("MC_Link", dict(const=["Opts <- OptsT", "Seeds <- SeedsQ", "Frames = 2", "FB = 4", "Chunks = {1, 3}", "MaxSch = 3"], inv=_lk, min=20000, minvec=5000))]),
    tr=dict(module="TR_Link", init="LinkInit", apply="LinkApply"), min_traces=100)
_ex = ["OneStream", "RoundTrip", "InAlphabet", "Emit"]
REG["C29"] = dict(
    mc=dict(quick=[("MC_ExSim", dict(const=["Cds <- CdsQ", "Sizes = {8}", "MaxChunks = 2", "Seeds <- SeedsQ"], inv=_ex, min=3000, minvec=1000))],
            thorough=[("MC_ExSim", dict(const=["Cds <- CdsT", "Sizes = {4, 8, 12}", "MaxChunks = 3", "Seeds <- SeedsQ"], inv=_ex, min=10000, minvec=3000))]),
    tr=dict(module="TR_ExSim", init="ExInit", apply="ExApply"), min_traces=250)
_ps = ["FftFits", "PerHertz", "HalfBand", "Emit"]
REG["C30"] = dict(
    mc=dict(quick=[("MC_Psa", dict(const=["Grids <- GridsQ", "Amps = {1, 3}", "Places = 6"], inv=_ps, min=1000, minvec=600))],
            thorough=[("MC_Psa", dict(const=["Grids <- GridsT", "Amps = {1, 3}", "Places = 6"], inv=_ps, min=3000, minvec=2000))]),
    tr=dict(module="TR_Psa", init="PsaInit", apply="RejectApply"), min_traces=50)
_ls = ["FromMoments", "RidgeBest", "NormalEq", "LassoBest", "Emit"]
REG["C31"] = dict(
    mc=dict(quick=[("MC_LeastSq", dict(const=["MaxM = 2", "Vals <- ValsQ", "Bvals <- BvalsQ", "Lams <- LamsQ"], inv=_ls, min=2000, minvec=1500)),
                   ],
            thorough=[("MC_LeastSq", dict(const=["MaxM = 3", "Vals <- ValsQ", "Bvals <- BvalsQ", "Lams <- LamsQ"], inv=_ls, min=50000, minvec=40000))]),
    tr=dict(module="TR_LeastSq", init="LsInit", apply="LsApply"), min_traces=150)
_ji = ["MemoryIsClean", "Inner", "ZeroIsClean", "Emit"]
REG["C32"] = dict(
    mc=dict(quick=[("MC_Jitter", dict(const=["MaxLen = 4", "F = 3"], inv=_ji, min=20000, minvec=900))],
            thorough=[("MC_Jitter", dict(const=["MaxLen = 5", "F = 3"], inv=_ji, min=200000, minvec=2900))]),
    tr=dict(module="TR_Jitter", init="JitInit", apply="JitApply"), min_traces=40)
_ad = ["PhaseInRange", "DoneMeansStopped", "OpenMeansRunning", "Emit"]
REG["C33"] = dict(
    mc=dict(quick=[("MC_Adapt", dict(const=["Pairs <- PairsQ", "MaxLen = 6"], inv=_ad, prop=["Frozen"], min=3000, minvec=2000))],
            thorough=[("MC_Adapt", dict(const=["Pairs <- PairsT", "MaxLen = 6"], inv=_ad, prop=["Frozen"], min=10000, minvec=8000))]),
    tr=dict(module="TR_Adapt", init="AdInit", apply="AdApply"), min_traces=80)
