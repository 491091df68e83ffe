FLOW="static analysis: abstract interpretation (guarded value flow) over rustc MIR, reader and writer composed in one abstract state and compared with the schema meaning of each token class"
CLAIMS['C12']=(FLOW,'other','')
CLAIMS['C13']=(FLOW,'other','')
CLAIMS['C11']=(FLOW,'other','')
CLAIMS['C08']=("static analysis: guarded effect trace of the save routine (abstract interpretation of MIR) checked against the replace-by-rename protocol, plus a who-may-call rule over the call graph",'other','')
CLAIMS['C06']=("static analysis: dataflow of every Result and handle upgrade through MIR (moves, discriminant tests, combinators, drops) to its fate, no failing variant may reach a successful return",'other','')
CLAIMS['C01']=("static analysis: abstract interpretation (guarded value flow over MIR) of the archive loader and writer for an arbitrary entry, plus an effect query over every function that writes the part store",'other','')
CLAIMS['C02']=("static analysis: abstract interpretation (guarded value flow over MIR) of loader, open/create/close and writer for an arbitrary part; obligations per component of the content-type record and per combination of default and override",'other','')
CLAIMS['C10']=("static analysis: abstract interpretation (guarded value flow over MIR) of load+save as one composition; the extracted path functions of lookup, creation and deletion are compared with their specification on every class of owner and target",'other','')
CLAIMS['C09']=("static analysis: abstract interpretation (guarded value flow over MIR) of the string table reader, lookup and writer for an arbitrary item and an arbitrary table, plus an enumeration of the functions with mutable access",'other','')
CLAIMS['C30']=(FLOW,'other','')
CLAIMS['C14']=(FLOW,'other','')
CLAIMS['C18']=(FLOW,'other','')
CLAIMS['C24']=("static analysis: abstract interpretation (guarded value flow over MIR) of opening and closing the part, plus must-pass-through analysis of every save path over the call graph",'other','')
CLAIMS['C21']=("static analysis: typestate of part documents (open, closed, deleted) in an abstract interpretation of open, close, close again; must-pass-through and ordering analysis of drop, close and save over the call graph",'other','')
CLAIMS['C17']=("static analysis: abstract interpretation of both conversion functions of every enumeration over all variants and all distinguished tokens (MIR), compared with the standard's token tables",'other','')
CLAIMS['C20']=("static analysis: abstract interpretation (guarded value flow over MIR) extracts the conditional sequence of tree operations per part; the sequence is applied to every class of source children and compared with the schema sequence; sort-key function extracted symbolically",'other','')
CLAIMS['C23']=("static analysis: abstract interpretation (guarded value flow over MIR, registry constants folded) of constructors and templates of every part kind, compared with the standard's names",'other','')
CLAIMS['C03']=("static analysis: abstract interpretation (guarded value flow over MIR) of the event reader and of the writer for one arbitrary event and one arbitrary element; number and kind of unescape/escape applications on the flow of every text and attribute value",'other','')
CLAIMS['C04']=("static analysis: abstract interpretation (guarded value flow over MIR) of the writer's traversal for one arbitrary step and of every tree operation on an arbitrary document, compared with their specification",'other','')
CLAIMS['C05']=("static analysis: abstract interpretation (guarded value flow over MIR) of the parser's event loop for one arbitrary event of every kind, compared with the tree the event stands for",'other','')

CLAIMS['C15']=(FLOW,'other','')
CLAIMS['C16']=("static analysis: abstract interpretation (guarded value flow over MIR) of the resolution of one arbitrary request against arbitrary tables, per variant of every enumeration in the request; record fields are tied to attributes by interpreting the writer",'other','')
CLAIMS['C19']=("static analysis: abstract interpretation (guarded value flow over MIR, induction variables as start + step*n) of the row-writing operations for an arbitrary sheet and value list, compared per requested type and value class with the specification; path rule for the extent",'other','')
CLAIMS['C07']=("abstract interpretation of every public operation, Drop, and reader/writer step over MIR: each panic site's failing condition and operand intervals are derived and judged against what the path established",'other','')
CLAIMS['C22']=("static analysis: guard-liveness dataflow over MIR with interprocedural borrow summaries and an inclusion-based points-to analysis of RefCell allocation sites",'other','')
CLAIMS['C28']=("static analysis: abstract interpretation of one arbitrary round of the conversion loops (loop-carried state symbolic), compared with the bijective base-26 recurrences",'other','')
CLAIMS['C25']=("static analysis: abstract interpretation (guarded value flow over MIR) of every exported function with arbitrary, possibly null, pointers and failing operations; status, output cells, uses of pointers and handle ownership compared as boolean functions",'other','')
CLAIMS['C26']=("static analysis: queries over the syntax of the wrappers against the exported signatures and status codes of the type-checked interface crate",'other','')
CLAIMS['C27']=("static analysis: abstract interpretation over MIR of the request mapping; every field handed to the library is read as a term over the request's accessors",'other','')
