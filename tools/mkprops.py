#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording and anchors are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
L, X, D = "src/lib.rs", "src/extended.rs", "src/display.rs"
INP = ["inputs"]
FIX = "the tests replay four recorded machines, so each register holds a handful of values and most bits never change"

prop("C01", "Basic-leaf numbers are exactly their documented register fields",
 "Every numeric or enumerated value reported for the basic leaves (up to 0x7FFF_FFFF) equals the bit field (plus the documented offset or scaling) that the Intel SDM / AMD APM assigns to that quantity, read from that leaf, sub-leaf and register. This holds for every content of the CPUID registers and does not depend on any other bit.",
 INP, "all 2^128 register values of every leaf and sub-leaf a value is derived from, all vendors",
 FIX, [L],
 [("bit-field extraction", "src/lib.rs: get_bits and its ~120 callers"), ("payload construction from the leaf's registers", "src/lib.rs: impl CpuId, get_* methods")],
 observe=["return values of the numeric accessors on FeatureInfo, MonitorMwaitInfo, ThermalPowerInfo, ExtendedFeatures, PerformanceMonitoringInfo, ExtendedStateInfo, Rdt*, SgxInfo, ProcessorTraceInfo, TscInfo, ProcessorFrequencyInfo, SoCVendorInfo, HypervisorInfo and the iterator items"])
prop("C02", "Basic-leaf feature flags report exactly their own CPUID bit",
 "Every boolean feature query on the basic leaves returns true exactly when the one CPUID bit documented for that feature is set (in its leaf, sub-leaf and register), and is unaffected by every other bit. No two different features share a bit.",
 INP, "all register values, every has_* / is_* query of the basic leaves",
 FIX + "; a flag moved to a neighbouring bit that is equally 0 or 1 on those machines goes unnoticed", [L],
 [("bitflags constants", "src/lib.rs: bitflags! blocks FeatureInfoFlags .. RdtAllocationInfoFlags"), ("check_flag!/check_bit_fn! accessors", "src/lib.rs")])
prop("C03", "Extended-leaf numbers are exactly their documented register fields",
 "Every numeric or enumerated value reported for the extended leaves (0x8000_0000 and above) equals the bit field, with the documented offset or scaling, that the AMD APM / Intel SDM assigns to that quantity. This holds for every content of the CPUID registers.",
 INP, "all register values of leaves 0x8000_0001..0x8000_0026, all vendors", FIX, [X, L],
 [("bit-field extraction", "src/extended.rs: get_bits callers in L1CacheTlbInfo .. ExtendedCpuTopologyLevel")])
prop("C04", "Extended-leaf flags report their own bit; vendor-only flags stay off",
 "Every boolean feature query on the extended leaves returns true exactly when its documented CPUID bit is set. Features of the extended processor-signature leaf (0x8000_0001) that only AMD defines are reported false on processors of other vendors whatever the bit holds. No other bit influences the answer.",
 INP, "all register values and all vendor strings", FIX + "; only one AMD and three Intel machines are sampled, so the vendor gate is hardly exercised", [X],
 [("bitflags constants and vendor gate", "src/extended.rs: ExtendedProcessorFeatureIdentifiers, ApmInfo, ProcessorCapacityAndFeatureInfo, SvmFeatures, ...")])
prop("C05", "A leaf is reported exactly when the processor supports it",
 "Each leaf query returns information exactly when the leaf number does not exceed the maximum the processor reports for that range (basic or extended) and the documented extra conditions hold (AMD-reserved leaves absent on AMD, SGX and SVM only with their feature bit, L1 leaf only on AMD, hypervisor leaf only under a hypervisor with a non-zero limit). Otherwise it returns nothing.",
 INP, "all values of the two maximum-leaf registers, all vendor strings, all gating feature bits",
 "the tests see four fixed limits; an off-by-one, a wrong range or a forgotten vendor case only shows at limits none of those machines has", [L],
 [("support test", "src/lib.rs: CpuId::leaf_is_supported"), ("getters", "src/lib.rs: impl CpuId get_*")],
 state=[("supported_leafs / supported_extended_leafs", "maximum basic / extended leaf", "src/lib.rs: struct CpuId")])
prop("C06", "Queries read only supported leaves, and only the leaf they document",
 "Every query executes CPUID only for its documented leaves and sub-leaves (plus the documented gate leaves), and never for a leaf above the processor's reported maximum or one reserved on that vendor. A query that reports a leaf as unsupported has not read it.",
 INP, "all register contents, all vendors, every public query", "tests compare results, not which leaves were read; a read of an unsupported leaf returns harmless zeros from a recorded table", [L, X],
 [("reader calls", "src/lib.rs, src/extended.rs: every cpuid1 / cpuid2 call site")])
prop("C07", "No register content makes the library panic or overflow",
 "No value returned by CPUID makes construction, a query, an accessor, an iterator step, a comparison or a formatting of the library panic, overflow, shift out of range, divide by zero or index out of bounds. This includes values no real processor reports, such as those of a misbehaving hypervisor, and every history of an enumeration (of fewer than 2^32-1 steps where the processor announces no limit).",
 INP, "all register contents of every leaf, every public function of the default build (overflow checks on)", FIX + "; extreme field values (all ones) are never fed", [L, X],
 [("arithmetic, match and index sites", "every MIR Assert terminator and diverging call reachable from a public function")])
prop("C08", "Sub-leaf iterators list each valid sub-leaf once, in order, and stop",
 "Each sub-leaf enumeration (cache parameters, topology, extended state, SGX sections, address translation, SoC attributes, AMD topology) yields exactly the valid sub-leaves in ascending order from its documented first sub-leaf, each decoded from its own registers, and ends at the documented end marker or limit. No sub-leaf is repeated or skipped. Whatever other iterator methods a type defines (nth, size_hint, count, a fused or exact-size promise, ...) agree with stepping through it.",
 ["inputs", "histories"], "all register contents, every number of steps already taken", "recorded machines have at most a few sub-leaves each; stopping conditions, gaps and large indices are not reached", [L, X],
 [("cursors", "src/lib.rs: CacheParametersIter, ExtendedTopologyIter, ExtendedStateIter, SgxSectionIter, DatIter, SoCVendorAttributesIter; src/extended.rs: ExtendedCpuTopologyIter")],
 state=[("current / level", "next sub-leaf to read", "iterator structs")])
prop("C09", "Every query and every limited enumeration finishes in bounded work",
 "Every query, accessor and formatting of a single (non-enumerating) value performs a bounded number of CPUID reads and steps, whatever the registers hold. Enumerations whose size the processor announces (cache descriptors, extended state, address translation, SoC attributes) end after at most that many items and stay ended, even for hostile register contents.",
 ["inputs", "histories"], "all register contents, all call sequences on an iterator", "a diverging enumeration needs register contents none of the recorded machines has", [L, X],
 [("loops and recursion", "src/lib.rs: CacheInfoIter::next, ExtendedStateIter::next, DatIter::next, SoCVendorAttributesIter::next")])
prop("C10", "Results depend only on the CPUID data: no hidden or shared state",
 "A query's result is a function of the values the CPUID source returns and of the arguments only: the library keeps no global, cached or interior-mutable state, and read-only calls never change later results. Two instances, or two calls, that see the same CPUID data give the same answers.",
 ["inputs", "histories", "schedules"], "all call orders, all interleavings of threads sharing an instance, all register contents", "a cache or static would be invisible to tests that call each query once on a fixed table", [L, X],
 [("no statics, no interior mutability, no environment access", "whole crate: statics, UnsafeCell-containing types, called foreign functions")])
prop("C11", "An instance obtains CPUID data only from the source it was given",
 "An instance built on a user-supplied CPUID source obtains every register value from that source and never from the host processor; the clone handed to sub-iterators is a clone of that same source. Only instances created by default execute the CPUID instruction.",
 ["inputs", "programs"], "all queries and iterators on any reader type", "tests run on machines where both sources exist; a stray native read of a rarely used sub-leaf goes unnoticed", [L, X],
 [("reader threading", "src/lib.rs: read: R fields; native_cpuid module")])
prop("C12", "The native source and the cpuid! macro pass registers through unchanged",
 "The native source executes CPUID with the requested leaf in EAX and sub-leaf in ECX and returns EAX, EBX, ECX and EDX each in its own field; a query without sub-leaf uses sub-leaf 0, and the closure and macro forms behave the same. The default instance uses this source. A raw result says it is all zero exactly when every bit of its four registers is 0.",
 INP, "all leaf and sub-leaf arguments", "the result is hardware dependent, so tests cannot state the expected registers", [L],
 [("native_cpuid::cpuid_count, cpuid! macro, CpuIdReader blanket impl and cpuid1 default", "src/lib.rs")])
prop("C13", "Vendor, brand and SoC strings decode the right registers, or say invalid",
 "The vendor, processor brand and SoC brand strings are the ASCII/UTF-8 bytes of their documented registers in documented order (brand cut at the first NUL and trimmed), and the fixed \"invalid\" text exactly when those bytes are not valid UTF-8. No other register contributes.",
 INP, "all byte contents, valid UTF-8 or not", "recorded machines only have well-formed ASCII strings", [L, X],
 [("string views", "src/lib.rs: VendorInfo::as_str, SoCVendorBrand::as_str; src/extended.rs: ProcessorBrandString::as_str")])
prop("C14", "Unsafe code is confined and its memory views stay in bounds",
 "Safe callers cannot trigger undefined behaviour: every raw memory view the library creates lies within one live, fully initialised, padding-free object with a lifetime tied to it, and text views are validated before use. Unsafe code exists only for the CPUID instruction and these views.",
 ["inputs", "programs"], "all register contents, all safe client programs", "undefined behaviour need not show up in a passing test", [L, X],
 [("from_raw_parts views over repr(C) structs; __cpuid_count", "src/lib.rs: VendorInfo::as_str, SoCVendorBrand::as_str, native_cpuid; src/extended.rs: ProcessorBrandString::as_str")])
prop("C15", "Processor vendor and hypervisor are identified by their exact signatures",
 "A processor is treated as AMD exactly when its vendor signature is AuthenticAMD or HygonGenuine, as Intel exactly for GenuineIntel, and as unknown otherwise; a hypervisor is named exactly when its signature registers equal the published one, and is otherwise reported as unknown with those registers. Vendor-dependent behaviour follows this classification only.",
 INP, "all 2^96 vendor signatures and all hypervisor signatures", "only two vendor signatures and few hypervisor signatures are recorded", [L],
 [("vendor match", "src/lib.rs: Vendor::from_vendor_leaf"), ("hypervisor match", "src/lib.rs: HypervisorInfo::identify")])
prop("C16", "Legacy cache descriptors are decoded byte by byte from the right table entry",
 "The cache-descriptor enumeration looks at every descriptor byte of the leaf except the lowest one, in a fixed order, skips empty and unknown bytes and registers marked invalid (bit 31), and yields for each known descriptor the table entry with that number, once per occurrence. The public table has unique descriptor numbers, lists every descriptor the Intel manual documents under its documented type, and every entry has a description of its own, which states the documented kind, level, page or cache sizes, ways, line size and entry counts of that descriptor.",
 ["inputs", "histories"], "all 2^120 descriptor contents, all positions in the enumeration", "three recorded machines use about a dozen of the descriptors", [L],
 [("CacheInfoIter::next, CACHE_INFO_TABLE, CacheInfo::desc", "src/lib.rs")])
prop("C17", "Derived quantities follow their documented formulas",
 "Values computed from several fields (display family and model, TSC frequency, SGX section base and size, processor serial number, per-node and per-package counts, associativity encodings, hypervisor frequencies) equal the documented formula for every register content for which the result is representable. Where the inputs say a quantity is not enumerated, the result says so.",
 INP, "all register contents", FIX, [L, X],
 [("FeatureInfo::family_id/model_id, TscInfo::tsc_frequency, EpcSection, ProcessorSerial, Associativity::for_l1/for_l2/for_l3", "src/lib.rs, src/extended.rs")])
prop("C18", "Equality and cloning of reported values are exact",
 "Two reported values compare equal exactly when all the CPUID data they hold is equal, and a clone or copy is equal to and independent of the original. Cloning an iterator preserves its position and advancing one does not affect the other.",
 ["inputs", "histories"], "all pairs of values of each comparable or clonable public type", "tests compare a value with itself or with a constant", [L, X],
 [("PartialEq / Clone impls", "src/lib.rs, src/extended.rs: every derived or manual impl")])
prop("C19", "Debug output pairs each label with the value of that name",
 "In the debug rendering of every reported value each labelled entry shows the value the query of that name returns (for the whole instance: the leaf query of that name), and list renderings contain exactly the items the enumeration yields. Rendering does not disturb the value.",
 INP, "all register contents, every Debug implementation of the library", "no test inspects the debug text", [L, X],
 [("Debug impls", "src/lib.rs, src/extended.rs: debug_struct / debug_list builders")])
prop("C20", "The human-readable report shows each quantity under its own label, once",
 "In the printed CPU report each row shows the value of the quantity its label names, each section appears exactly when the leaf it describes is reported (and each item of an enumerated leaf gets its own section or line), with all its rows, and no feature is shown twice or under another's label. No report row is computed from another feature's query. (The report has no section for the hypervisor leaves, for leaf 0x1F and for 0x8000_0001; numbers of enumerated lines count the items shown.)",
 INP, "all register contents, every row of the report", "the report is only printed by the command-line tool; no test covers it", [D],
 [("report rows", "src/display.rs: markdown"), ("tables", "src/display.rs: table2, table3, print_attr, print_cpuid_result")])
prop("C21", "The raw dump covers every supported leaf of every range",
 "The raw dump prints one line for every leaf from the first to the last supported one of each of the basic, hypervisor and extended ranges, labelled with the leaf (and sub-leaf) it was read from. No supported leaf is missing, none beyond the reported maximum is printed, and none is printed with another leaf's registers.",
 INP, "all reported maxima", "the dump is only reachable from the command-line tool; no test covers it", [D],
 [("range loops", "src/display.rs: raw")])
prop("C22", "The default build needs neither the standard library nor an allocator",
 "In its default configuration the library (and everything it links) uses only core facilities: no standard library, no heap allocation, no I/O and no dependency beyond the flag macro crate. Only the optional command-line report features may use more.",
 ["configurations", "programs"], "all call paths of the default configuration", "unit tests are themselves built with the standard library, so they link either way", [L, "Cargo.toml"],
 [("crate attributes and dependency features", "src/lib.rs: #![cfg_attr(not(any(test, feature std)), no_std)]; Cargo.toml [features]")])
prop("C23", "Reported values are thread-safe and cannot outlive or bypass their data",
 "Every reported value and iterator can be sent to and shared between threads whenever the CPUID source can, and only then. Strings borrowed from a value cannot outlive it. Clients cannot construct the reported records and iterators, or alter the CPUID data they hold, except through the library (documented public fields and the raw CPUID result aside). Programs that try are rejected at compile time.",
 ["programs", "schedules"], "all client programs", "a test cannot show that a program fails to compile, nor quantify over clients", [L, X],
 [("private fields, auto traits, borrowed returns", "src/lib.rs, src/extended.rs: struct definitions and signatures")])
prop("C24", "Deprecated names stay exact synonyms of their replacements",
 "Every deprecated query still returns exactly what the documented replacement returns, for every register content. The two constructor names for a user-supplied source are synonyms as well.",
 INP, "all register contents, every deprecated function", "tests call only one of the two names", [L, X],
 [("deprecated aliases", "src/lib.rs, src/extended.rs: #[deprecated] functions, CpuId::with_cpuid_fn")])
prop("C25", "Display text of enumerated values names the right variant",
 "The textual form of every enumerated value (cache type, topology type, associativity, state component, translation type, hierarchy level, state location) is distinct for distinct variants and carries the numeric payload where there is one. The textual form of the string values is the string itself.",
 INP, "all variants and payloads", "no test formats these values", [L, X],
 [("Display impls", "src/lib.rs, src/extended.rs")])
prop("C26", "Serialised CPUID results restore to the same registers",
 "With serialisation enabled, a CPUID result serialises each of its four registers under a name of its own and deserialises each back into the same register, whatever the values. Nothing is skipped, defaulted or merged.",
 ["inputs", "configurations"], "all register values, all serde formats", "the example covers one value and one format", [L],
 [("serde derives", "src/lib.rs: CpuIdResult")])
prop("C27", "The command-line tool prints, for this machine, what the chosen format names",
 "Running the cpuid tool prints the raw dump exactly when the raw format is chosen and the human-readable report exactly when the cli format is, once, read from the CPU it runs on (the native source). The name raw selects the raw format and cli the report, in the option parser and in the format's FromStr, where every other text is refused; without the option the report is printed.",
 ["inputs"], "all command lines and format names", "the tool has no tests", ["src/bin/cpuid.rs"],
 [("dispatch and format names", "src/bin/cpuid.rs: main, OutputFormat, Opts")])
prop("C28", "Optional features, release builds and the target change no result",
 "The library compiles in its default configuration, with each optional feature, without debug assertions, on 32-bit x86 and on little-endian targets without the CPUID instruction (other architectures, SGX enclaves, x86 without SSE). Every function of the default library exists, and returns the same result for all arguments and register contents, in each of these builds (for results an address-sized integer can represent there); features only add functions. Where the instruction cannot be assumed to exist, only the native source and what is built on it is missing, and nothing executes CPUID.",
 ["configurations", "inputs"], "all register contents in every build configuration", "the tests run in one configuration, on one target", [L, X, "Cargo.toml"],
 [("cfg attributes", "src/lib.rs"), ("address-sized integers", "src/lib.rs: CacheParameter; src/extended.rs: ProcessorCapacityAndFeatureInfo")])
prop("C90", "Reported values agree with the physical processor the code runs on",
 "On real hardware every reported feature is actually usable as described and every reported size matches the silicon.",
 ["programs"], "all processors", "depends on hardware, not on this code", [L], [("native CPUID", "src/lib.rs: native_cpuid")])
prop("C91", "Leaves read at different moments describe one consistent processor",
 "When an instance is used while the thread migrates between dissimilar cores, the values it reports belong to a single core.",
 ["schedules"], "all migrations between heterogeneous cores", "scheduling of the host", [L], [("one CPUID execution per query", "src/lib.rs: impl CpuId")])
prop("C92", "Terminal layout of the report is readable at every width",
 "The printed tables are laid out without truncating values at every terminal width.",
 ["configurations"], "all terminal widths", "the layout is done by a third-party crate at run time", [D], [("table templates", "src/display.rs: table2, table3")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
