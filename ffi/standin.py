"""Writes a stand-in for the generated flatbuffers module from the schemas: every table becomes a type with one
accessor per field. Scalars and strings have the types flatc gives them; a table or enumeration the library has its own
type for is read as that type (the schemas leave the enumerations undeclared, so nothing could be generated for them)."""
import os
import re
import sys

repo = sys.argv[1]
SCALAR = {'bool': 'bool', 'byte': 'i8', 'ubyte': 'u8', 'short': 'i16', 'ushort': 'u16', 'int': 'i32', 'uint': 'u32', 'long': 'i64', 'ulong': 'u64',
          'float': 'f32', 'double': 'f64', 'int8': 'i8', 'uint8': 'u8', 'int16': 'i16', 'uint16': 'u16', 'int32': 'i32', 'uint32': 'u32',
          'int64': 'i64', 'uint64': 'u64'}
lib = set()
for r, _, fs in os.walk(os.path.join(repo, 'rs/src/spreadsheet/spreadsheet_2007/models')):
    for f in fs:
        t = open(os.path.join(r, f)).read()
        lib |= {(n, k) for k, n in re.findall(r'^pub (struct|enum) (\w+)', t, re.M)}
names = {n for n, k in lib}
spaces = {}
for r, _, fs in sorted(os.walk(os.path.join(repo, 'fbs'))):
    for f in sorted(fs):
        if not f.endswith('.fbs'):
            continue
        t = re.sub(r'//[^\n]*', '', open(os.path.join(r, f)).read())
        ns = re.search(r'namespace\s+openxml_office_fbs\.(\w+)', t)
        if not ns:
            continue
        for n, body in re.findall(r'table\s+(\w+)\s*\{([^}]*)\}', t):
            spaces.setdefault(ns.group(1), {})[n] = re.findall(r'(\w+)\s*:\s*([\w.\[\]]+)', body)
o = ['#![allow(dead_code)]', 'pub mod openxml_office_fbs {']
for ns, tables in spaces.items():
    o.append('pub mod %s {' % ns)
    for n, fields in tables.items():
        o.append("#[derive(Clone, Copy)] pub struct %s<'a>(pub &'a [u8]);" % n)
        o.append("impl<'a> flatbuffers::Table<'a> for %s<'a> { fn at(b: &'a [u8]) -> Self { Self(b) } }" % n)
        o.append("impl<'a> %s<'a> {" % n)
        for f, ty in fields:
            if ty in SCALAR:
                o.append('pub fn %s(&self) -> %s { unimplemented!() }' % (f, SCALAR[ty]))
            elif ty == 'string':
                o.append("pub fn %s(&self) -> Option<&'a str> { unimplemented!() }" % f)
            elif ty in names and ns == 'spreadsheet_2007':
                own = 'draviavemal_openxml_office::spreadsheet_2007::models::' + ty
                o.append('pub fn %s(&self) -> %s { unimplemented!() }' % (f, own if not f.endswith('color') else 'Option<%s>' % own))
            elif ty in tables:
                o.append("pub fn %s(&self) -> Option<%s<'a>> { unimplemented!() }" % (f, ty))
        o.append('}')
    o.append('}')
o.append('}')
print('\n'.join(o))
