LIM['C01']="What quick-xml/zip do inside their own crates is taken as documented. Entries whose name equals a part the library rewrites belong to C10/C21."
LIM['C02']="A PartName override is matched case-sensitively, as the library does everywhere else."
LIM['C03']="The release-only `dvmo` comment/namespace of the writer is not analysed (the dump is of the debug profile). Literal line breaks and tabs in attribute values, which XML normalises on reading, are not part of the claim."
LIM['C04']="As C03 for the release profile. The order in which elements are taken off the internal work list is judged only through the order of the written children."
LIM['C05']="Comments and processing instructions are dropped by design; blank layout text is dropped; mixed content is kept as one text followed by the children; xml:space is honoured on the element itself only; reader settings changed inside the event loop are not looked at."
LIM['C06']="Failures swallowed inside dependencies; a failure that is turned into a value of an ordinary enum of the library and dropped later is followed only through matches on that enum."
LIM['C07']="A site whose guard rests on internal state the engine does not know is counted as undecided, not reported. Stack and memory exhaustion are not judged; a `try_borrow` that can fail is C22's subject."
LIM['C09']="Formatting runs and phonetic texts of existing entries are not claimed to survive."
LIM['C10']="Target paths are compared on classes of owner and target (absolute, relative, with parent steps, with sub folders), not as free strings; the three parent-folder findings are listed."
LIM['C13']="Panes and selections inside a view are read and dropped by the library (defect noted, not part of the statement)."
LIM['C14']="Several workbookView elements collapse to the last one; a view without attributes is not written; activeTab is not renumbered after a deletion."
LIM['C15']="gradientFill, tint and automatic colours, diagonal up/down flags, protection and the alignment attributes the library has no field for are not claimed; unknown border children are reported as an error."
LIM['C16']="Hashes are taken as injective; an existing-entry search written as an explicit loop is judged less strictly than one through `position`; the request cache is judged through what is stored in it."
LIM['C17']="Tokens the library's enumerations do not list are read as the default member."
LIM['C18']="Names are compared exactly; the orphaned relationship part of a deleted sheet is not claimed."
LIM['C19']="Letters-to-number conversions are taken as exact (that is C28). Value classes are number, integer, infinite, true/false text, other text; a cell with an explicit type and no value may change type."
LIM['C20']="Children of a foreign namespace are not judged; mc:AlternateContent in a worksheet stands for oleObjects/controls; the children of a font may come in any order in the schema version used."
LIM['C21']="Handles are followed inside the library; a program that leaks a handle (mem::forget) is outside."
LIM['C22']="Cells inside collections are told apart by access path and allocation site only; borrows taken by the destructor of an Rc's content are not followed."
LIM['C23']="As C03 for the release profile."
LIM['C25']="The interface crate is compiled against a stand-in for its generated flatbuffers module; a change that no longer compiles against it is reported as undecided, not as an alarm. Operations that report success in the library although they did nothing (hiding an unknown sheet, adding a name that exists) are judged as the library reports them."
LIM['C26']="The wrappers are read by their syntax (no compiler for C#, Go and no dependencies for Java here); marshalling attributes other than the types are not judged. The Java, Python and Go wrappers are stubs at this commit."
LIM['C27']="Property values (which enum member means what) are not compared where the schema leaves the enumeration undeclared."
LIM['C28']="Only conversions whose loop matches one of the known positional recurrences (any order of operations) are compared; another algorithm is left undecided instead of being reported."
LIM['C30']="Array/shared flags (attributes a, s, t, l) of an entry are claimed as the library models them."
