"""Reads the PPHLO dialect definition (ops.td) with llvm-tblgen and writes the C++ declarations its generated headers would hold."""
import glob, json, os, subprocess

ROOT = 'libspu/dialect/pphlo/IR/'
INC = ('ops.h.inc', 'ops.cc.inc', 'types.h.inc', 'types.cc.inc', 'attrs.h.inc', 'attrs.cc.inc', 'base_enums.h.inc', 'base_enums.cc.inc', 'interface.h.inc', 'interface.cc.inc', 'dialect.h.inc', 'dialect.cc.inc', 'canonicalization_patterns.cc.inc')


def tds(src):
    return sorted(os.path.relpath(p, src) for p in glob.glob(src + ROOT + '*.td'))


def records(src, verif):
    """-> parsed json or None"""
    for exe in ('llvm-tblgen-18', 'llvm-tblgen', '/usr/lib/llvm-18/bin/llvm-tblgen'):
        try:
            r = subprocess.run([exe, '--no-warn-on-unused-template-args', '--dump-json', '-I', verif + '/stubs_td', '-I', src, ROOT + 'ops.td'], cwd=src, capture_output=True, text=True)
        except OSError:
            continue
        if r.returncode == 0:
            return json.loads(r.stdout)
        return None
    return None


def camel(s):
    return ''.join(x[:1].upper() + x[1:] for x in s.split('_'))


def ops(d):
    """every operation: {class, name, args:[(name, kind, base, optional)], results:[(name, variadic)], regions:[name]}"""
    out = []
    for k in d['!instanceof']['Op']:
        r = d[k]
        cls = k.split('_', 1)[1] if '_' in k else k
        args = []
        for t, n in r['arguments']['args']:
            x = d[t['def']]
            sup = x['!superclasses']
            if 'Variadic' in sup:
                args.append((n, 'variadic', None, False))
            elif 'Attr' in sup:
                base = x.get('base', {}).get('def', x['!name']) if 'base' in x else x['!name']
                args.append((n, 'attr', base, bool('OptionalAttr' in sup)))
            else:
                args.append((n, 'operand', None, 'Optional' in sup))
        res = [(n, 'Variadic' in d[t['def']]['!superclasses']) for t, n in r['results']['args']]
        regs = [n for t, n in r['regions']['args']]
        out.append({'class': cls, 'name': r['opName'], 'args': args, 'results': res, 'regions': regs})
    return sorted(out, key=lambda o: o['class'])


ATTR = {'I64Attr': 'int64_t', 'SI64Attr': 'int64_t', 'I32Attr': 'int32_t', 'BoolAttr': 'bool', 'StrAttr': '::llvm::StringRef', 'ElementsAttr': '::mlir::ElementsAttr',
        'DenseI64ArrayAttr': '::llvm::ArrayRef<int64_t>', 'F32Attr': '::llvm::APFloat', 'F64Attr': '::llvm::APFloat', 'ArrayAttr': '::mlir::ArrayAttr', 'DictionaryAttr': '::mlir::DictionaryAttr', 'UnitAttr': 'bool'}


def write(src, verif, dst):
    os.makedirs(dst + '/' + ROOT, exist_ok=True)
    for f in INC:
        open(f'{dst}/{ROOT}{f}', 'w').write('')
    d = records(src, verif)
    if d is None:
        return False
    os_ = ops(d)
    json.dump(os_, open(f'{dst}/{ROOT}ops.json', 'w'), indent=0)
    H = ['namespace mlir::spu::pphlo {']
    for o in os_:
        H.append(f'class {o["class"]} : public ::mlir::OpState {{ public: using OpState::OpState; ::mlir::TypeRange getResultTypes(); ::mlir::OpResult getResult(unsigned);')
        if all(n != 'results' for n, *_ in o['args']):
            H.append('  ::mlir::ResultRange getResults();')
        for n, k, b, opt in o['args']:
            if k == 'attr':
                t = ATTR.get(b)
                if t is None:
                    sup = d[b]['!superclasses']
                    if 'EnumAttr' in sup:
                        t = '::mlir::spu::pphlo::' + d[d[b]['enum']['def']]['className']
                    elif 'AttrDef' in sup:
                        t = '::mlir::spu::pphlo::' + d[b]['cppClassName'] + 'Attr'
                    else:
                        t = '::mlir::Attribute'
                H.append(f'  {"::std::optional<" + t + ">" if opt else t} get{camel(n)}();')
            else:
                H.append(f'  {"::mlir::OperandRange" if k == "variadic" else "::mlir::Value"} get{camel(n)}();')
        if len(o['results']) == 1 and not o['results'][0][1]:
            H.append('  ::mlir::Type getType();')
            if o['results'][0][0] in ('', None, 'result'):
                H.append('  ::mlir::Value getResult();')
            else:
                H.append(f'  ::mlir::Value get{camel(o["results"][0][0])}(); ::mlir::Value getResult();')
        else:
            for n, v in o['results']:
                if n and n not in ('results',):
                    H.append(f'  {"::mlir::ResultRange" if v else "::mlir::Value"} get{camel(n)}();')
        for n in o['regions']:
            H.append(f'  ::mlir::Region& get{camel(n)}();')
        H.append('};')
    H.append('}')
    open(f'{dst}/{ROOT}ops.h.inc', 'w').write('#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n' + '\n'.join(H) + '\n#endif\n')
    open(f'{dst}/{ROOT}ops.cc.inc', 'w').write('#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n' + ',\n'.join('::mlir::spu::pphlo::' + o['class'] for o in os_) + '\n#endif\n')
    A = ['namespace mlir::spu::pphlo {']
    for k in d['!instanceof'].get('AttrDef', []):
        r = d[k]
        A.append(f'class {r["cppClassName"]}Attr : public ::mlir::Attribute {{ public:')
        for t, n in r['parameters']['args']:
            ty = t if isinstance(t, str) else d[t['def']].get('cppType', 'int64_t')
            A.append(f'  {ty} get{n[:1].upper() + n[1:]}() const;')
        A.append('};')
    A.append('}')
    open(f'{dst}/{ROOT}attrs.h.inc', 'w').write('\n'.join(A) + '\n')
    E = ['namespace mlir::spu::pphlo {']
    for k in d['!instanceof'].get('I32EnumAttr', []):
        r = d[k]
        E.append(f'enum class {r["className"]} : uint32_t {{ ' + ', '.join(f'{d[c["def"]]["symbol"]} = {d[c["def"]]["value"]}' for c in r['cases']) + ' };')
    E.append('}')
    open(f'{dst}/{ROOT}base_enums.h.inc', 'w').write('\n'.join(E) + '\n')
    open(f'{dst}/{ROOT}types.h.inc', 'w').write('namespace mlir::spu::pphlo { class SecretType : public ::mlir::Type { public: ::mlir::Type getBaseType() const; static SecretType get(::mlir::Type); unsigned getWidth() const; }; }\n')
    open(f'{dst}/{ROOT}interface.h.inc', 'w').write('namespace mlir::spu::pphlo { class PPHloTypeInterface : public ::mlir::Type { public: unsigned getWidth() const; }; }\n')
    open(f'{dst}/{ROOT}dialect.h.inc', 'w').write('namespace mlir::spu::pphlo { class PPHloDialect : public ::mlir::Dialect { }; }\n')
    return True


if __name__ == '__main__':
    import driver
    print(write(driver.SRC, driver.VERIF, '/tmp/w/td'))
