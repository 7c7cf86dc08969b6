"""Which contracts decide which property."""

F = "filters/"

ASSUMPTIONS = [
    "machine arithmetic is treated as mathematical: floats are reals (or infinity where a parameter admits it), so rounding, overflow, NaN and signed zero are outside the proofs; the bounded runs use the real floats",
    "incident signals and coefficients are finite and of numeric type; complex signals are filtered with complex coefficients",
    "single threaded use of an instance, no subclassing or monkey patching between calls",
]

P = {
    "P01": dict(
        files=[F + "fir_filter.py"], level="proof",
        units=[("fir_filter", ["Filter", "Init"])],
    ),
    "P02": dict(
        files=[F + "iir_filter.py"], level="proof",
        units=[("iir_filter", ["Filter", "Init"])],
    ),
    "P03": dict(
        files=[F + f for f in ("fir_filter.py", "iir_filter.py", "derivative_filter.py", "integral_filter.py", "pid_filter.py", "rank_filter.py", "complex_exponential_filter.py", "complex_bandpass_filter.py", "complex_frequency_filter.py", "goertzel_filter.py")],
        level="proof", budget=600,
        units=[
            ("streams", ["Fir", "Iir", "Rank", "Pid", "Exponential", "Bandpass", "Frequency", "Goertzel"]),
            ("fir_filter", ["Filter"]), ("iir_filter", ["Filter"]), ("tables", ["DerivativeFilter", "IntegralFilter"]),
            ("simple_filters", ["RankFilter", "PidFilter"]), ("exponential", ["Filter"]), ("lms", ["Bandpass", "Frequency"]), ("goertzel", ["Filter"]),
        ],
    ),
    "P04": dict(budget=500,
        files=[F + f for f in ("fir_filter.py", "iir_filter.py", "derivative_filter.py", "integral_filter.py", "rank_filter.py", "polyphase_rate_filter.py")],
        level="proof",
        units=[
            ("streams", ["FirSteady", "RankSteady", "IirSteady"]), ("fir_filter", ["Filter", "Reset", "PolyphaseReset"]), ("iir_filter", ["Filter", "Reset"]),
            ("rates", ["PolyphaseSteady", "Polyphase", "PolyphaseInit"]),
            ("tables", ["DerivativeReset", "IntegralReset", "RankReset", "DerivativeFilter", "IntegralFilter"]), ("simple_filters", ["RankFilter"]),
        ],
    ),
    "P05": dict(
        files=[F + "fir_filter.py", F + "iir_filter.py"], level="proof",
        units=[("fir_filter", ["Design"])],
    ),
    "P06": dict(
        files=[F + "fir_filter.py", F + "iir_filter.py"], level="proof",
        units=[("fir_filter", ["Response", "Delay", "Roots"]), ("iir_filter", ["Response", "Roots"])],
    ),
    "P07": dict(files=[F + "derivative_filter.py", F + "fir_filter.py"], level="proof", units=[("tables", ["DerivativeInit", "DerivativeFilter"])]),
    "P08": dict(files=[F + "integral_filter.py", F + "fir_filter.py"], level="proof", units=[("tables", ["IntegralInit", "IntegralFilter"])]),
    "P09": dict(files=[F + "pid_filter.py"], level="proof", units=[("simple_filters", ["PidFilter", "PidInit", "PidLimit"])]),
    "P10": dict(files=[F + "rank_filter.py"], level="proof", units=[("simple_filters", ["RankFilter", "RankInit", "RankIndex"])]),
    "P11": dict(files=[F + "complex_exponential_filter.py"], level="proof", units=[("exponential", ["Filter", "Init", "Phase"])]),
    "P12": dict(
        files=[F + "complex_bandpass_filter.py", F + "complex_frequency_filter.py", F + "complex_exponential_filter.py"], level="proof",
        units=[("lms", ["Bandpass", "Frequency", "Reset", "BandpassInit", "FrequencyInit", "BandpassFrequency", "BandpassRate", "FrequencyRate", "FrequencyFrequency"]), ("exponential", ["Filter"])],
    ),
    "P13": dict(
        files=[F + "goertzel_filter.py", F + "iir_filter.py"], level="proof",
        units=[("goertzel", ["Filter", "Init", "Frequency", "Fourier"])],
    ),
    "P14": dict(
        files=[F + "polynomial_rate_filter.py"], level="proof",
        units=[("rates", ["PolynomialRate", "PolynomialRateInit", "PolynomialRateRate", "PolynomialRateOrder", "PolynomialLines"])],
    ),
    "P15": dict(budget=500,
        files=[F + "polyphase_rate_filter.py", F + "fir_filter.py"], level="proof",
        units=[("rates", ["Polyphase", "PolyphaseInit", "PolyphaseRate", "PolyphaseContinued", "PolyphaseWhole"]), ("fir_filter", ["PolyphaseReset"])],
    ),
    "P16": dict(files=["transforms/fourier_transform.py"], level="proof", units=[("transforms", ["Fourier", "FourierRoundTrip"])]),
    "P17": dict(files=["transforms/psd_transform.py"], level="proof", units=[("transforms", ["Psd"])]),
    "P18": dict(files=["transforms/complex_transform.py"], level="proof", units=[("transforms", ["Complex", "ComplexRoundTrip"])]),
    "P20": dict(files=["transforms/z_transform.py"], level="proof", units=[("z_transform", ["Z"])]),
    "P21": dict(
        files=["models/gaussian_model.py", "models/gaussian_mixture_model.py"], level="proof",
        units=[("models", ["Regularize", "GaussianInit", "GaussianFit", "GaussianPredict", "MixtureRegularize", "MixtureIndex", "MixtureInit", "MixtureFit", "MixturePredict"])],
    ),
    "P22": dict(budget=500,
        files=["models/diversity_model.py"], level="proof",
        units=[("models", ["DiversityInit", "DiversityClear", "DiversityFit", "Distances", "DiversityKept"])],
        assumptions=["a model of at least two members (order 1 or more)", "no observation has a first element within the comparison tolerance of the largest float, which marks a free place", "infinity stands for a value above every distance"],
    ),
    "P23": dict(files=["commons/serial.py"], level="proof", units=[("commons", ["Encode", "Decode", "Code"])]),
    "P24": dict(files=["commons/log.py"], level="proof", units=[("commons", ["LogClass", "LogLevel", "LogStream", "LogWrite"])]),
    "P25": dict(files=["commons/rest_client.py"], level="proof", units=[("commons", ["Request", "Live", "RestInit", "Proxy", "Timeout", "Url"])]),
    "P28": dict(files=[F + "window_filter.py"], level="proof", units=[("simple_filters", ["WindowInit", "WindowFilter"])]),
}

LEMMAS = [("streams", n) for n in ("Fir", "Iir", "Rank", "Pid", "Exponential", "Bandpass", "Frequency", "Goertzel")]
LEMMAS += [("commons", "LogClass"), ("goertzel", "Fourier"), ("transforms", "FourierRoundTrip"), ("transforms", "ComplexRoundTrip")]
LEMMAS += [("models", "Distances"), ("models", "DiversityKept")]
LEMMAS += [("rates", n) for n in ("PolynomialLines", "PolyphaseContinued", "PolyphaseWhole", "PolyphaseSteady")]
LONG = [("models", "DiversityFit"), ("rates", "Polyphase"), ("goertzel", "Filter"), ("iir_filter", "Filter")]  # started first
ALL = {}
for _p in P.values():
    for _m, _names in _p["units"]:
        if _m == "streams":
            continue
        ALL.setdefault(_m, [])
        ALL[_m] += [_n for _n in _names if _n not in ALL[_m] and (_m, _n) not in LEMMAS]
FILES = sorted({f for _p in P.values() for f in _p["files"]})

RESTS = ["these obligations rest on the safety obligations of the same functions, discharged with them (a unit where one fails is reported as not verified), and on what their loop invariants say about values, discharged by the checks of the properties about those values"]

# properties of every function under contract: some of the obligations of each
P["P26"] = dict(
    files=FILES, level="proof", units=sorted(ALL.items()), budget=500,
    only=r"/frame:|:fresh$|:not-fresh$|:alias$|:identity$|:missing$|:extra-field$",
    assumptions=RESTS,
)
P["P27"] = dict(
    files=FILES, level="proof", units=sorted(ALL.items()), budget=500,
    only=r"/outcome|/rejected:",
    assumptions=RESTS,
)

TECHNIQUE = "contract-based deductive verification: verification conditions generated from the current Python source, discharged by z3 (cvc5 as a second opinion)"

NOTE = (
    "Proof over mathematical reals of every generated obligation of the functions under contract, for all lengths, orders and values; "
    "numpy, scipy and other library functions are assumed to meet the contracts listed in the evidence; floats are treated as reals. "
    "Bounded runs of the real code replay failures and cross-check the assumptions; they are never counted as proved."
)

PENDING = "its functions are not yet under contract in this framework"
NA = {f"P{i:02d}": PENDING for i in range(1, 31)}
NA["P30"] = (
    "the half power frequency is met by a 500 step heuristic search (scaling of a step by its residual) with no convergence argument: a deductive contract can "
    "state the result but neither the loop invariant nor a termination measure that implies it exists, and the tolerance reached depends on rounding"
)
