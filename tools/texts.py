"""property -> (technique, level note) of the rules beyond the field tables"""
TR = ("Sound for the type-checked MIR (debug profile, x86_64, default features unless said otherwise) given the engine's transfer functions and "
      "its summaries of core library functions (engine/natives.py); anything underivable is reported, not assumed.")
T2 = {
 "C07": ("panic-path reachability over MIR (exact path conditions as canonical Boolean functions)",
         "Every Assert terminator and diverging call reachable from a public function is shown to have path condition false for all register contents; enumerations by a finite prefix plus one step from an arbitrary position; both for x86_64 and for 32-bit x86. 2 known findings. " + TR),
 "C09": ("termination analysis: exact bounds on loop iterations and reads, cursor-progress induction for enumerations",
         "Every loop of every query is exhausted within its derived bound; enumeration cursors strictly increase up to the announced limit. Formatting of enumerations themselves follows their length. " + TR),
 "C10": ("whole-crate inventory of state and effects on MIR and types, plus dataflow: results depend on reads and arguments only",
         "No static, thread local, interior mutability or ambient read in any reachable body; every query and accessor leaves its receiver unchanged. " + TR),
 "C11": ("effect and provenance analysis: which source every register read goes to",
         "Every read site reached from every query and iterator goes to the supplied reader or a clone of it; native execution is confined to the native source. " + TR),
 "C12": ("effect analysis of the native source, plus dataflow over MIR of client crates that expand the macros",
         "Operands and result registers of the CPUID intrinsic are matched bit for bit for all arguments. " + TR),
 "C13": ("byte-provenance dataflow over MIR with path-sensitive validation condition",
         "The bytes, their order and the exact condition of the fallback text are equal to the documented ones for all register contents; UTF-8 validation itself is core's. " + TR),
 "C14": ("unsafe-site inventory with alias/bounds/initialisation analysis of every raw memory view",
         "Each raw view is shown to cover a prefix of one live padding-free object; every other unsafe construct is a violation. Soundness of core's own unsafe code is assumed. " + TR),
 "C15": ("guard dataflow over MIR: exact condition of each classification, and what vendor dependence remains after it",
         "For all 2^96 signatures; vendor-dependent behaviour is shown to depend on the signature only through the class. " + TR),
 "C16": ("symbolic step of the descriptor iterator from every position, against the table in the source; that table against the manual's",
         "For every position and every register content the next item is the table entry of the next known byte; the facts a description states (not its wording) are compared with a transcription of the manual's table. " + TR),
 "C20": ("value-flow analysis over MIR of the report: every text handed to the terminal, its exact condition and the query its values come from, compared with a written-down table",
         "With the public queries as uninterpreted functions (C01 to C18 say what they return), every section, row and line is shown to be printed exactly under the documented presence condition, once per item, with exactly the value of the accessor named for its label, for all values of all queries; enumerations up to 2 arbitrary items. Which accessor a label names is spec/report.spec. " + TR),
 "C21": ("value-flow analysis over MIR of the raw dump: condition, label and register provenance of every line printed",
         "For every reported maximum by one arbitrary iteration of each loop over a range of leaves; the loops themselves followed exactly for maxima below 64 leaves into a range. " + TR),
 "C27": ("value-flow analysis over MIR of the command-line program: condition and argument type of each output call, text-to-format functions, option defaults",
         "main is followed for every parsed option value and every format name text; how clap turns an argument vector into that value is assumed. " + TR),
 "C28": ("equivalence of type-checked programs: pairwise comparison of MIR across build configurations, value flow on the same arguments where the code differs",
         "Every function of the default build against its counterpart with each optional feature, without debug assertions and type-checked for i686, i586, aarch64 and x86_64-sgx (core's source is type-checked for those targets on each run), where the last three must not contain the instruction; code that differs, or computes with address-sized integers, is compared by result for all arguments. The language's own library is assumed to differ between targets only in the width of usize. " + TR),
 "C22": ("dependency, crate-attribute and callee inventory over MIR of the default configuration",
         "Every crate linked and every foreign callee of every body belongs to core; attributes require no_std. " + TR),
 "C18": ("relational dataflow over MIR: every eq / ne / cmp / partial_cmp / clone on arbitrary values, as canonical Boolean functions",
         "For all pairs of values of every comparable or clonable type: the result is exactly the conjunction of bitwise equality of all fields; a clone is field-for-field the original and holds no reference to it. The client's own CPUID source is assumed to compare and clone lawfully. " + TR),
 "C24": ("relational value-flow over MIR: deprecated function and its documented replacement on the same arbitrary receiver",
         "Equality of canonical forms for all register contents, of results and of return conditions; constructors field by field. " + TR),
 "C19": ("relational dataflow over MIR: output events of every Debug rendering against the accessors, as canonical Boolean functions",
         "For all register contents: the sequence of (label, value) pairs handed to the formatter contains, per documented accessor, the accessor's value; lists are shown to hold every item exactly once through the next() call that feeds each entry. How core's formatter prints an integer is assumed. " + TR),
 "C25": ("output-event dataflow over MIR of every Display rendering (format templates decoded), against the documented text of the value",
         "For all values: exact literal pieces and provenance of each printed argument under each path condition. Core's integer and str formatting is assumed. " + TR),
 "C26": ("composition dataflow over MIR of derived Serialize and Deserialize of each type (serialize feature), with serde's data model as uninterpreted events",
         "The composition of what is written and how it is read back is shown to be the identity on every field of every type. The client's data format is assumed to preserve the data model's values, names and order. " + TR),
 "C23": ("type-level witnesses: client programs the type checker must accept or reject, plus an inventory of typed public signatures",
         "Auto-trait, field-privacy and borrow-lifetime witnesses for every public type and every public function returning a borrow, derived from the current source; constructors and exclusive access by inventory of all public signatures. Values of the plain enumerations can be written by clients by design. Control witnesses guard the reading of compiler errors. " + TR),
}
