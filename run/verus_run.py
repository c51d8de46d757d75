"""Extracts functions of /repo mechanically, puts the contracts of verus/*.rs on them and lets Verus discharge the obligations.

A template is a Verus file in which a block
    //@fn SRC "IMPL" NAME [-> RESULT] [vis=pub] [drop=REGEX]...
    //| requires / ensures clauses
    //@loop N            (invariants of the N-th loop of the body, in source order)
    //| invariant ... decreases ...
    //@ghost AFTER "text" (proof code inserted after the statement containing text)
    //| ...
    //@end
stands for the function NAME of the impl block whose header is IMPL (blanks ignored; "" for a free function) in SRC,
taken from the working tree on every run. What the extraction changes is listed in DROPS."""
import functools, json, os, re, subprocess, threading, time
REPO = os.environ.get('NBVM_TRY_REPO', '/repo') # (the variable is for experiments on scratch copies only)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DROPS = ['comments, documentation and attributes of the function; statements under #[cfg(test)]; debug_assert!s (absent from release builds)',
         'the result gets a name', 'for (i, x) in V.iter_mut().enumerate() { B }  becomes  the while loop over i with x = &mut V[i] it stands for (no early exit by continue)',
         'let P = loop { .. break E .. }  becomes  let result_; loop { .. result_ = E; break .. } let P = result_', 'a closure passed as an argument gets types, a named result and the postcondition that the result is its body (wrap)', 'the literal substitutions listed with a function (subs)', 'Option::map with a closure becomes the match it stands for (optmap)', 'a for loop over V.iter_mut(), V.iter(), a range or a vector becomes the while loop over the indices (or over the vector, removing its first element) it stands for',
         'noinner: functions nested in a function are taken out of it (each is extracted under its own contract)', 'macros: the uses of a macro_rules! local to a function become its text', 'a loop with break values at the end of a function becomes  let last_ = loop { .. } last_']

class Lost(Exception): pass

@functools.lru_cache(maxsize=4096)
def blank(src):
    """src with comments and the contents of string and character literals replaced by blanks of the same length."""
    out, i, n = list(src), 0, len(src)
    def wipe(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            wipe(i, j); i = j
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            wipe(i, j); i = j
        elif src[i] in 'br' and re.match(r'b?r#*"', src[i:i + 8]) and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == '_')):
            h = re.match(r'b?r(#*)"', src[i:]); j = src.find('"' + h.group(1), i + h.end()); j += 1 + len(h.group(1))
            wipe(i, j); i = j
        elif src[i] == '"':
            j = i + 1
            while j < n and src[j] != '"': j += 2 if src[j] == '\\' else 1
            wipe(i + 1, j); i = j + 1
        elif src[i] == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 14])
            if m: wipe(i + 1, i + m.end() - 1); i += m.end()
            else: i += 1
        else: i += 1
    return ''.join(out)
def close(b, i):
    """index after the bracket matching b[i]"""
    d, o = 0, {'{': '}', '(': ')', '[': ']'}[b[i]]
    for j in range(i, len(b)):
        if b[j] == b[i]: d += 1
        elif b[j] == o:
            d -= 1
            if d == 0: return j + 1
    raise Lost('unbalanced brackets')
norm = lambda s: re.sub(r'\s+', '', s)
def find_fn(src, impl, name):
    b = blank(src)
    spans = [(0, len(b))]
    if impl:
        spans = []
        for m in re.finditer(r'(?:^|\n)\s*(?:pub(?:\([^)]*\))? )?(?=(?:unsafe )?(?:impl|mod|trait)\b)', b):
            o = b.find('{', m.end())
            if o > 0 and norm(re.sub(r'where.*$', '', b[m.end():o], flags=re.S)) == norm(impl): spans.append((o, close(b, o)))
        if not spans: raise Lost('no block ' + impl)
    for lo, hi in spans:
        for m in re.finditer(r'\bfn\s+' + re.escape(name) + r'\b', b[lo:hi]):
            s = lo + m.start()
            line = b.rfind('\n', 0, s) + 1
            head = b[line:s]
            st = line + len(head) - len(head.lstrip())
            o = s
            while b[o] not in '{;': o = close(b, o) if b[o] in '([' else o + 1
            if b[o] == ';': continue
            e = close(b, o)
            return src[st:o], src[o:e]
    raise Lost('no function ' + name + ' in ' + (impl or 'the file'))
def find_type(src, name):
    b = blank(src)
    m = re.search(r'(?:^|\n)[ \t]*((?:pub(?:\([^)]*\))? )?(?:struct|enum) ' + re.escape(name) + r'\b)', b)
    c = re.search(r'(?:^|\n)[ \t]*(?:pub(?:\([^)]*\))? )?(const ' + re.escape(name) + r'\b[^;]*;)', b)
    if c and not m: return 'pub ' + src[c.start(1):c.end(1)]
    if not m: raise Lost('no type ' + name)
    o = m.start(1)
    while b[o] not in '{;': o = close(b, o) if b[o] in '([' else o + 1
    t = strip(src[m.start(1):close(b, o) if b[o] == '{' else o + 1])
    t = re.sub(r'^(?:pub(?:\([^)]*\))? )?(struct|enum)', r'pub \1', t)
    if t.startswith('pub struct'): t = re.sub(r'\n\s*(?:pub(?:\([^)]*\))?\s+)?(\w+\s*:)', r'\n    pub \1', t)
    return t
def fields(src, enum, variant):
    """The fields of a variant of an enum, in source order."""
    b = blank(src)
    m = re.search(r'\benum ' + re.escape(enum) + r'\b[^{]*', b)
    if not m: raise Lost('no enum ' + enum)
    inner = strip(src[m.end():close(b, m.end())])
    m = re.search(r'(?:^|[{,\s])' + re.escape(variant) + r'\s*(?:\{([^}]*)\})?\s*(?:,|\}\s*$)', inner)
    if not m: raise Lost(f'no variant {enum}::{variant}')
    return [tuple(x.strip() for x in f.split(':', 1)) for f in (m.group(1) or '').split(',') if f.strip()]
def arms(body):
    """The arms of the match over the instruction read from the code: {variant: (pattern, code)}, and what follows the match."""
    b = blank(body)
    m = re.search(r'let \((\w+), aft_pos\) = Instruction::read\([^;]*\);\s*match (\w+) \{', b)
    if not m or m.group(1) != m.group(2): raise Lost('no match over the instruction')
    o = m.end() - 1; e = close(b, o); i, res = o + 1, {}
    while True:
        while i < e - 1 and b[i] in ' \n\t,': i += 1
        if i >= e - 1: break
        j = i
        while not b.startswith('=>', j): j = close(b, j) if b[j] in '{([' else j + 1
        pat = body[i:j].strip(); k = j + 2
        while b[k] in ' \n\t': k += 1
        q = k
        if b[k] == '{': q = close(b, k)
        elif re.match(r'match\b', b[k:]):
            while b[q] != '{': q = close(b, q) if b[q] in '([' else q + 1
            q = close(b, q)
        else:
            while q < e - 1 and b[q] != ',': q = close(b, q) if b[q] in '([{' else q + 1
        p = re.match(r'Instruction::(\w+)\s*(?:\{([^}]*)\})?$', pat)
        if not p or p.group(1) in res: raise Lost('an arm is not one instruction: ' + pat[:60])
        code = body[k:q]
        res[p.group(1)] = ([tuple(y.strip() for y in x.split(':', 1)) for x in (p.group(2) or '').split(',') if x.strip()], code[1:-1] if code.startswith('{') else code + ';')
        i = q
    return res, body[e:body.rindex('}')].strip()
def expand(body, text):
    """Replaces the uses of the local macro lookup_var by its definition."""
    while True:
        b = blank(body); k = b.find('lookup_var!(')
        if k < 0: return body
        e = close(b, k + 11)
        m = re.match(r'(mut )?(\w+) => (.*)$', body[k + 12:e - 1], re.S)
        d = re.search(r'\(@impl \$var:ident :: \$m:ident :: \$f:expr\) => \{(.*?)\};\s*\(\$var:ident => \$f:expr\) => \{lookup_var!\(@impl \$var :: lookup :: \$f\)\};\s*\(mut \$var:ident => \$f:expr\) => \{lookup_var!\(@impl \$var :: lookup_mut :: \$f\)\};', text, re.S)
        if not m or not d: raise Lost('lookup_var')
        x = d.group(1).replace('$var', m.group(2)).replace('$m', 'lookup_mut' if m.group(1) else 'lookup').replace('$f', m.group(3))
        body = body[:k] + x + body[e:]
def turned(body, head, method):
    """HEAD(A, B) becomes (B).METHOD(A): the arguments are evaluated in the other order."""
    while True:
        b = blank(body); m = re.search(re.escape(head) + r'\(', b)
        if not m: return body
        e = close(b, m.end() - 1); j = m.end()
        while b[j] != ',': j = close(b, j) if b[j] in '([{' else j + 1
        body = body[:m.start()] + '(' + body[j + 1:e - 1].strip() + ').' + method + '(' + body[m.end():j] + ')' + body[e:]
def casts(body, ty, fn):
    """E as TY becomes FN(E)."""
    while True:
        b = blank(body); m = re.search(r'\s+as\s+' + ty + r'\b', b)
        if not m: return body
        j = m.start()
        while j > 0 and (b[j - 1].isalnum() or b[j - 1] in '_.:)]?'):
            if b[j - 1] in ')]':
                d = 0
                while True:
                    j -= 1; d += (b[j] in ')]') - (b[j] in '([')
                    if d == 0: break
            else: j -= 1
        body = body[:j] + fn + '(' + body[j:m.start()] + ')' + body[m.end():]
def find_arm(text, variant):
    _, body = find_fn(text, "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>", 'step_impl')
    body = strip(body); table, tail = arms(body)
    if variant not in table: raise Lost('no arm for ' + variant)
    pat, code = table[variant]
    types = dict(fields(open(os.path.join(REPO, 'src/bytecode.rs')).read(), 'Instruction', variant))
    bound = [(p[-1], types[p[0]].replace("&'a", '&')) for p in pat if p[0] in types]
    name = 'do_' + re.sub(r'(?<!^)(?=[A-Z])', '_', variant).lower()
    sig = f"pub fn {name}(&mut self, mc: &mut Mutation<'gc>, system: &mut Env<'gc, C, S>, global_context: &mut GlobalContext<'gc, C, S>, aft_pos: usize" + ''.join(f', {n}: {t}' for n, t in bound) + ") -> Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>"
    return sig, '{\n' + expand(code, body) + '\n' + tail + '\n}'
IMPL = "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>"
STEP = "&mut self, mc: &mut Mutation<'gc>, system: &mut Env<'gc, C, S>, global_context: &mut GlobalContext<'gc, C, S>"
def find_head(text):
    """What precedes the execution of an instruction, as a function: None if the execution is to go on."""
    _, body = find_fn(text, IMPL, 'step_impl')
    body = strip(body); b = blank(body)
    m = re.search(r'let system = self\.global_context\.borrow\(\)\.system\.clone\(\);', b); n = b.find('let mut global_context_raw')
    if not m or n < m.end(): raise Lost('no code before the instruction is read')
    head = body[m.end():n]
    while True:
        k = re.search(r'\breturn Ok\((?!Some\()', blank(head))
        if not k: break
        e = close(blank(head), k.end() - 1)
        head = head[:k.end()] + 'Some(' + head[k.end():e] + ')' + head[e:]
    return f"pub fn resume({STEP}) -> Result<Option<ProcessStep<'gc, C, S>>, ErrorCause<C, S>>", '{\n' + head + '\nOk(None)\n}'
def find_table(text, variant, name):
    """let NAME: .. = match OP { PAT => |..| BODY, .. } in the arm, as a function NAME(mc, system, values, OP)."""
    _, body = find_fn(text, IMPL, 'step_impl')
    table, _ = arms(strip(body))
    if variant not in table: raise Lost('no arm for ' + variant)
    code = table[variant][1]; b = blank(code)
    m = re.search(r'let ' + name + r'\s*:[^=]*=[^=]*?= match (\w+) \{', b)
    if not m: raise Lost('no table ' + name)
    o = m.end() - 1; e = close(b, o); inner = code[o:e]
    if len(re.findall(r'=> \|(?:mc|_), (?:system|_), values\|', inner)) != len(re.findall(r'VariadicOp::\w+\s*=>', inner)): raise Lost('the table has other closures')
    inner = re.sub(r'=> \|(?:mc|_), (?:system|_), values\|', '=>', inner)
    return f"pub fn {name}<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, system: &Env<'gc, C, S>, values: Vec<Value<'gc, C, S>>, {m.group(1)}: VariadicOp) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>", '{ match ' + m.group(1) + ' ' + inner + ' }'
@functools.lru_cache(maxsize=1024)
def strip(body):
    """Removes comments, cfg(test) statements, debug assertions and attributes."""
    b = blank(body)
    out, i = [], 0
    def stmt_end(j):
        while j < len(b) and b[j] not in ';,}': j = close(b, j) if b[j] in '([{' else j + 1
        return j + 1 if j < len(b) and b[j] == ';' else j
    while i < len(b):
        m = re.match(r'#\s*\[', b[i:])
        if m:
            e = close(b, i + m.end() - 1)
            if re.match(r'#\s*\[\s*cfg\s*\(\s*test\s*\)', b[i:e]):
                k = re.match(r'\s*(?=\{)', b[e:])
                e = close(b, e + k.end()) if k else stmt_end(e)
            i = e; continue
        m = re.match(r'debug_assert(_eq|_ne)?\s*!', b[i:])
        if m and (i == 0 or not (b[i - 1].isalnum() or b[i - 1] in '_:')): i = stmt_end(i); continue
        if b[i] != body[i] and body.startswith('//', i):
            while i < len(body) and body[i] != '\n': i += 1
            continue
        if b[i] != body[i] and body.startswith('/*', i):
            i = body.index('*/', i) + 2; continue
        out.append(body[i]); i += 1
    return ''.join(out)
def break_values(body, ty=''):
    """let P = loop { .. break E .. };  becomes  let result_; loop { .. { result_ = E; break } .. } let P = result_;"""
    b = blank(body)
    m = re.search(r'\blet\s+([^=;{}]+?)\s*=\s*loop\s*\{', b)
    if not m: return body
    o = m.end() - 1; e = close(b, o)
    inner, bi, res, i = body[o:e], b[o:e], '', 0
    while True:
        k = re.compile(r'\bbreak\b').search(bi, i)
        if not k: break
        j = k.end()
        while bi[j] not in ';,}': j = close(bi, j) if bi[j] in '([{' else j + 1
        res += inner[i:k.start()] + '{ result_ = ' + inner[k.end():j].strip() + '; break }'; i = j
    res += inner[i:]
    tail = e
    while b[tail] in ' \n': tail += 1
    if b[tail] == ';': tail += 1
    return body[:m.start()] + f'let result_{ty}; loop ' + res + f' let {m.group(1)} = result_;' + body[tail:]
def local_macros(body):
    """macro_rules! M { (a) => {{ A }}; (b) => {{ B }}; }  with words for patterns: the uses M!(a) become { A }."""
    while True:
        b = blank(body); m = re.search(r'\bmacro_rules!\s*(\w+)\s*\{', b)
        if not m: return body
        e = close(b, m.end() - 1); inner, bi, table, i = body[m.end():e - 1], b[m.end():e - 1], {}, 0
        while bi[i:].strip():
            k = re.compile(r'[\s;]*\(\s*(\w+)\s*\)\s*=>\s*\{').match(bi, i)
            if not k: raise Lost('a macro with other patterns')
            z = close(bi, k.end() - 1); x = inner[k.end():z - 1].strip()
            table[k.group(1)] = x if x.startswith('{') and close(blank(x), 0) == len(x) else '{ ' + x + ' }'
            i = z
            while i < len(bi) and bi[i] in '; \n': i += 1
        body = body[:m.start()] + body[e:]
        body = re.sub(r'\b' + m.group(1) + r'!\s*\(\s*(\w+)\s*\)', lambda q: table[q.group(1)], body)
def without_inner(body):
    """Drops the functions defined inside a function (they are extracted on their own)."""
    while True:
        b = blank(body); m = re.search(r'\bfn\s+\w+', b)
        if not m: return body
        o = m.end()
        while b[o] != '{': o = close(b, o) if b[o] in '([' else o + 1
        body = body[:m.start()] + body[close(b, o):]
def tail_loop(body):
    """A loop with break values at the end of a block becomes  let last_ = loop { .. }; last_"""
    b = blank(body)
    for m in re.finditer(r'(?<=[;{}])\s*\bloop\s*\{', b):
        e = close(b, m.end() - 1)
        if re.match(r'\s*\}', b[e:]) and re.search(r'\bbreak\s+[^;,}\s]', b[m.end():e]): return body[:m.start()] + ' let last_ = ' + body[m.start():e].strip() + '; last_' + body[e:]
    return body
def option_maps(body):
    """E.map(|p| B)  becomes  match E { Some(p) => Some(B), None => None }  (E an option)."""
    opens = {')': '(', ']': '[', '}': '{'}
    while True:
        b = blank(body)
        m = re.search(r'\.map\(\s*\|([^|]*)\|', b)
        if not m: return body
        e = close(b, b.index('(', m.start())); i = m.start()
        while i > 0:
            c = b[i - 1]
            if c in opens:
                d = 0
                while True:
                    i -= 1
                    d += (b[i] == c) - (b[i] == opens[c])
                    if not d: break
            elif c.isalnum() or c in '_.:': i -= 1
            elif c in ' \n' and b[i:].lstrip().startswith('.') and re.search(r'[\w)\]]\s*$', b[:i]): i -= 1
            else: break
        body = body[:i] + f'match {body[i:m.start()].strip()} {{ Some({m.group(1)}) => Some({body[m.end():e - 1].strip()}), None => None }}' + body[e:]
def wrapped(body, name, tmpl):
    """NAME(A.., |p, q| B)  (a closure as the last argument, by reference or not)  becomes the template, with {A} the other arguments, {P0} {P1}.. the closure's parameters, {B} its body."""
    i, n = 0, 0
    while True:
        b = blank(body)
        m = re.compile(r'\b' + name + r'\(').search(b, i)
        if not m:
            if not n: raise Lost(f'{name} is not called with a closure')
            return body
        e = close(b, m.end() - 1)
        c = re.search(r',\s*&?\|([^|]*)\|', b[m.end():e])
        if not c: raise Lost(f'{name} is called without a closure')
        t = tmpl.replace('{A}', body[m.end():m.end() + c.start()].strip())
        for k, q in enumerate(body[m.end() + c.start(1):m.end() + c.end(1)].split(',')): t = t.replace('{P%d}' % k, '_q%d' % k if q.strip() == '_' else q.strip())
        t = t.replace('{B}', body[m.end() + c.end():e - 1].strip().rstrip(','))
        body = body[:m.start()] + t + body[e:]; i = m.start() + t.index('{'); n += 1
        if n > 60: raise Lost('too many')
        i = m.start() + len(t)
def loops(body, specs, tops, bottoms):
    """Desugars enumerating loops and puts the invariants on the loops, in source order."""
    n, i, out = 0, 0, ''
    while True:
        b = blank(body)
        m = re.compile(r'\b(while|for|loop)\b').search(b, i)
        if not m: break
        o = m.end()
        while b[o] != '{': o = close(b, o) if b[o] in '([' else o + 1
        e = close(b, o)
        head, inner = body[m.start():o].strip(), body[o + 1:e - 1]
        n += 1
        inv = specs.pop(n, None)
        if inv is None: raise Lost(f'loop {n} has no invariant')
        top, bottom = tops.pop(n, ''), bottoms.pop(n, '')
        q = re.match(r'for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s+([\w.]+)\.iter_mut\(\)\.enumerate\(\)$', head)
        p = re.match(r'for\s+(\w+)\s+in\s+(?:&mut\s+([\w.]+)|([\w.]+)\.iter_mut\(\))$', head)
        if (q or p) and not re.search(r'\bcontinue\b', blank(inner)):
            k, x, v = (q.group(1), q.group(2), q.group(3)) if q else ('i_', p.group(1), p.group(2) or p.group(3))
            rep = f'let mut {k} = 0;\n        while {k} < {v}.len()\n{inv}\n        {{\n            {top}let {x} = &mut {v}[{k}];{inner}            {bottom}{k} += 1;\n        }}'
            # the loop body starts right after the new header
            cut = rep.index('{', len(f'let mut {k} = 0;\n        while {k} < {v}.len()\n{inv}\n') - 1) + 1
        elif r := re.match(r'for\s+(\w+)\s+in\s+(.+?)\.\.([^=.].*)$', head, re.S):
            k, a, z = r.groups()
            pre = f'let mut next_{k}: usize = {a};\n        let end_{k}: usize = {z};\n        while next_{k} < end_{k}\n{inv}\n        {{\n            let {k} = next_{k}; next_{k} += 1;{top}'
            rep, cut = pre + inner + bottom + '}', len(pre)
        elif r := re.match(r'for\s+(\w+)\s+in\s+([\w.]+)\.iter\(\)\.rev\(\)$', head):
            x, v = r.groups()
            pre = f'let mut left_{x}: usize = {v}.len();\n        while left_{x} > 0\n{inv}\n        {{\n            left_{x} -= 1; let {x} = &{v}[left_{x}];{top}'
            rep, cut = pre + inner + bottom + '}', len(pre)
        elif r := re.match(r'for\s+(\w+)\s+in\s+(?:&([\w.]+)|([\w.]+)\.iter\(\))$', head):
            x, v = r.group(1), r.group(2) or r.group(3)
            pre = f'let mut next_{x}: usize = 0;\n        while next_{x} < {v}.len()\n{inv}\n        {{\n            let {x} = &{v}[next_{x}]; next_{x} += 1;{top}'
            rep, cut = pre + inner + bottom + '}', len(pre)
        elif r := re.match(r'for\s+(\([\w, ]+\)|\w+)\s+in\s+(\w+)$', head):
            x, v = r.groups()
            pre = f'let mut rest_{v} = {v};\n        while rest_{v}.len() > 0\n{inv}\n        {{\n            let ghost was_{v} = rest_{v}@; let {x} = rest_{v}.remove(0);{top}'
            rep, cut = pre + inner + bottom + '}', len(pre)
        else:
            rep = f'{head}\n{inv}\n        {{{top}{inner}{bottom}}}'
            cut = len(f'{head}\n{inv}\n        {{')
        body = body[:m.start()] + rep + body[e:]
        i = m.start() + cut
    if specs: raise Lost(f'{len(specs)} loops with invariants are gone')
    return body

def leave(body, code):
    """Names the value of the body (result_) and puts proof code after it."""
    b = blank(body); i, e = 1, b.rindex('}')
    start = None
    while True:
        while i < e and b[i] in ' \n\t': i += 1
        if i >= e: break
        start = i
        m = re.match(r'(if|match|for|while|loop|unsafe|proof)\b', b[i:])
        j = i
        if m or b[i] == '{':
            while True:
                while b[j] != '{': j = close(b, j) if b[j] in '([' else j + 1
                j = close(b, j)
                k = re.match(r'\s*else\b', b[j:])
                if not k: break
                j += k.end()
            i = j; ended = False
            while j < e and b[j] in ' \n\t': j += 1
            if j < e and b[j] == ';': i = j + 1; start = None
        else:
            while j < e and b[j] != ';': j = close(b, j) if b[j] in '([{' else j + 1
            if j < e: start = None; i = j + 1
            else: i = e
    if start is None: return body[:e] + '\n' + code + '\n}'
    return body[:start] + 'let result_ = ' + body[start:e].rstrip() + ';\n' + code + '\nresult_ }'

class Gen:
    """One generated file; fns: line ranges of the extracted functions."""
    def __init__(self, name, canary=False, assumed=()):
        self.fns, self.lost, self.assumed, self.subs, out = [], [], [], {}, []
        allsubs, common, armed = [], {}, {}
        lines, i = [], 0
        for l in open(os.path.join(VERIF, 'verus', name + '.rs')).read().split('\n'):
            m = re.match(r'\s*//@include (\w+)', l)
            if m:
                inc = open(os.path.join(VERIF, 'verus', m.group(1) + '.rs')).read()
                lines += inc[inc.index('// ---- begin') : inc.index('// ---- end')].split('\n')
            else: lines.append(l)
        while i < len(lines):
            m = re.match(r'\s*//@type (\S+) (\w+)(.*)$', lines[i])
            if m:
                try:
                    t = find_type(open(os.path.join(REPO, m.group(1))).read(), m.group(2))
                    for pat, rep in re.findall(r'sub=/(.*?)/(.*?)/', m.group(3)): t = re.sub(pat, rep, t)
                    out += t.split('\n')
                except (Lost, OSError) as e: self.lost.append(f'{name}: {m.group(2)}: {e}')
                i += 1; continue
            m = re.match(r'\s*//@allsub (.*)$', lines[i])
            if m: allsubs.append([x.strip() for x in re.split(r' ==>(?: |$)', m.group(1))]); i += 1; continue
            m = re.match(r'\s*//@(turn|cast) (\S+) (\w+)', lines[i])
            if m: allsubs.append(m.groups()); i += 1; continue
            m = re.match(r'\s*//@dispatch -> (\w+)$', lines[i])
            if m:
                spec, i = [], i + 1
                while '//@end' not in lines[i]:
                    if lines[i].strip().startswith('//|'): spec.append(lines[i].strip()[3:])
                    i += 1
                i += 1; body = None
                sig = f"pub fn dispatch({STEP}) -> ({m.group(1)}: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>)"
                try:
                    table, _ = arms(strip(find_fn(open(os.path.join(REPO, 'src/process.rs')).read(), IMPL, 'step_impl')[1]))
                    fits, calls, kinds = [], [], []
                    for v, (pat, _) in table.items():
                        if v not in armed: raise Lost('no contract for the instruction ' + v)
                        needs, req, names = armed[v]
                        pats = 'Instruction::' + v + (' { ' + ', '.join(': '.join(x) for x in pat) + ' }' if pat else '')
                        for a, c in (('*old(self)', 'self'), ('old(self)', 'self'), ('*old(mc)', 'mc'), ('old(mc)', 'mc'), ('*old(global_context)', 'g'), ('old(global_context)', 'g')): needs, req = needs.replace(a, c), req.replace(a, c)
                        fits.append(f'{pats} => self.ready(({needs}) as int)' + ''.join(f' && ({r})' for r in split_top(req)) + ',')
                        calls.append(f'{pats} => self.{names[0]}(mc, system, global_context, aft_pos' + ''.join(', ' + x for x in names[1]) + '),'); kinds.append(v)
                    out += ["pub open spec fn fits<'a>(self, ins: Instruction<'a>, g: GlobalContext<'gc, C, S>, mc: Mutation<'gc>) -> bool { match ins {"] + fits + ['} }']
                    groups, K = [], 9 # the match, a few arms at a time
                    for k in range(0, len(calls), K):
                        h = f"fn dispatch_{k // K}<'a>({STEP}, ins: Instruction<'a>, aft_pos: usize) -> ({m.group(1)}: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>)"
                        t = spec[:]; q = next(x for x, l in enumerate(t) if 'requires' in l)
                        t[q] = t[q].replace('requires', 'requires aft_pos != usize::MAX, old(self).fits(ins, *old(global_context), *old(mc)), (' + ' || '.join(f'ins is {v}' for v in kinds[k:k + K]) + '),', 1)
                        groups.append((f'dispatch_{k // K}', h, t, ['{ match ins {'] + calls[k:k + K] + (['_ => vstd::pervasive::unreached(),'] if len(calls) > K else []) + ['} }']))
                    body = '{ let (ins, aft_pos) = self.fetch(mc, global_context);\nmatch ins {\n' + '\n'.join(' | '.join(f'Instruction::{v} {{ .. }}' for v in kinds[k:k + K]) + f' => self.dispatch_{k // K}(mc, system, global_context, ins, aft_pos),' for k in range(0, len(calls), K)) + '\n} }'
                    for n_, h, t, c in groups:
                        if 'Process::dispatch' in assumed: continue
                        t = '\n'.join(t)
                        if canary: t = re.sub(r'\bensures\b', f'ensures crate::canary::c{len(self.fns)}(),', t, count=1)
                        start = len('\n'.join(out).split('\n')) + 1
                        block = (h + '\n' + t + '\n' + '\n'.join(c)).split('\n'); out += block
                        self.fns.append(('dispatch', IMPL, 'src/process.rs', start, start + len(block) - 1))
                    if 'Process::dispatch' in assumed: raise Lost('not understood by the verifier')
                except (Lost, OSError) as e:
                    self.lost.append(f'{name}: Process::dispatch: {e}'); self.assumed.append('Process::dispatch')
                    if body is None: out.append("pub uninterp spec fn fits<'a>(self, ins: Instruction<'a>, g: GlobalContext<'gc, C, S>, mc: Mutation<'gc>) -> bool;")
                    out += ['#[verifier::external_body]', sig] + spec + ['{ unimplemented!() }']; continue
                start = len('\n'.join(out).split('\n')) + 1
                spec = '\n'.join(spec)
                if canary: spec = re.sub(r'\bensures\b', f'ensures crate::canary::c{len(self.fns)}(),', spec)
                block = f'{sig}\n{spec}\n{body}'.split('\n'); out += block
                self.fns.append(('dispatch', IMPL, 'src/process.rs', start, start + len(block) - 1))
                continue
            m = re.match(r'\s*//@common (requires|ensures) (?:\[(\w+)\] )?(.*)$', lines[i])
            if m: common.setdefault(m.group(1), []).append((m.group(2), m.group(3))); i += 1; continue
            m = re.match(r'\s*//@(?:fn (\S+) "([^"]*)" (\w+)(?: -> (\w+))?|(arm) (\w+) needs=(\S+))(.*)$', lines[i])
            if not m: out.append(lines[i]); i += 1; continue
            src, impl, fn, res, arm, variant, needs, opts = m.groups()
            if arm: src, impl, fn, res = 'src/process.rs', "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>", 'step_impl[' + variant + ']', 'r'
            spec, inv, tops, bottoms, ghost, subs, enter, attr, out_, rty, i = [], {}, {}, {}, [], [], [], [], [], '', i + 1
            wraps = []
            cur = spec
            while '//@end' not in lines[i]:
                l = lines[i].strip()
                if l.startswith('//@loop'): cur = inv.setdefault(int(l.split()[1]), [])
                elif l.startswith('//@top'): cur = tops.setdefault(int(l.split()[1]), [])
                elif l.startswith('//@bottom'): cur = bottoms.setdefault(int(l.split()[1]), [])
                elif l.startswith('//@leave'): cur = out_
                elif l.startswith('//@result'): rty = ': ' + l[9:].strip()
                elif l.startswith('//@enter'): cur = enter
                elif l.startswith('//@attr'): attr.append(l[7:].strip())
                elif l.startswith('//@sub'): subs.append([x.strip() for x in re.split(r' ==>(?: |$)', l[6:])])
                elif l.startswith('//@wrap'): wraps.append(re.split(r' ==> ', l[8:]))
                elif l.startswith('//@ghost'):
                    g = re.match(r'//@ghost (BEFORE )?"(.*)"(?:#(\d+))?$', l); cur = []; ghost.append((g.group(2), cur, bool(g.group(1)), int(g.group(3) or 0)))
                elif l.startswith('//|'): cur.append(l[3:])
                i += 1
            i += 1
            key, decl = (owner(impl) + '::' if impl else '') + fn, None
            try:
                text = open(os.path.join(REPO, src)).read()
                sig, body = find_arm(text, variant) if arm else find_head(text) if 'part=head' in opts else find_table(text, *re.search(r'part=table\[(\w+)\]', opts).groups(), fn) if 'part=table' in opts else find_fn(text, impl, fn)
                sig, body = strip(sig).strip(), strip(body)
                if arm:
                    for x in allsubs: body = turned(body, *x[1:]) if x[0] == 'turn' and len(x) == 3 else casts(body, *x[1:]) if x[0] == 'cast' and len(x) == 3 else re.sub(x[0], x[1], body)
                    def spec_by(kw):
                        on, r = False, []
                        for l in spec:
                            k = re.match(r'\s*(requires|ensures)\b(.*)$', l)
                            if k: on = k.group(1) == kw; l = k.group(2)
                            if on and l.strip(): r.append(l)
                        return r
                    names = re.search(r'fn (\w+)\((.*)\) ->', sig)
                    armed[variant] = (needs, '\n'.join(spec_by('requires')), (names.group(1), re.findall(r'(\w+):(?!:)', names.group(2).split('aft_pos: usize', 1)[1])))
                    spec = [f'{kw} ' + ', '.join([c.replace('NEEDS', needs) for tag, c in common.get(kw, []) if not (tag and re.search(r'free=\S*\b' + tag + r'\b', opts))] + ['\n'.join(spec_by(kw)).strip().rstrip(',')] * bool(spec_by(kw))) + ',' for kw in ('requires', 'ensures')]
                if 'macros' in opts: body = local_macros(body)
                if 'noinner' in opts: body = without_inner(body)
                for pat, rep in re.findall(r'sub=/(.*?)/(.*?)/', opts): sig, body = re.sub(pat, rep, sig), re.sub(pat, rep, body)
                for pat, rep in subs: sig, body = re.sub(pat, rep, sig), re.sub(pat, rep, body)
                for name, tmpl in wraps: body = wrapped(body, name, tmpl)
                if 'optmap' in opts: body = option_maps(body)
                if 'vis=pub' in opts and not sig.startswith('pub'): sig = 'pub ' + sig
                if res:
                    b = blank(sig); k = b.rfind('->')
                    if k < 0: raise Lost(f'{fn} returns nothing')
                    sig = sig[:k] + f'-> ({res}: {sig[k + 2:].strip()})'
                decl = attr + ['#[verifier::external_body]', sig] + spec + ['{ unimplemented!() }']
                if key in assumed: raise Lost('not understood by the verifier')
                body = loops(break_values(tail_loop(body), rty), *({k: '\n'.join(v) + '\n' for k, v in d.items()} for d in (inv, tops, bottoms)))
                for after, code, before, nth in ghost:
                    if body.count(after) < nth or nth == 0 and body.count(after) != 1: raise Lost(f'{fn}: the text for a proof hint is gone: {after}')
                    k = -1
                    for _ in range(nth or 1): k = body.index(after, k + 1)
                    k += 0 if before else len(after)
                    body = body[:k] + '\n' + '\n'.join(code) + '\n' + body[k:]
                if out_: body = leave(body, '\n'.join(out_))
                if enter: body = body[:1] + '\n' + '\n'.join(enter) + body[1:]
                if subs: self.subs[fn] = [f'{a} ==> {b}' for a, b in subs]
                spec = '\n'.join(spec)
                if canary:
                    c = f'crate::canary::c{len(self.fns)}(),'
                    spec = re.sub(r'\bensures\b', 'ensures ' + c, spec) if re.search(r'\bensures\b', spec) else spec + '\n ensures ' + c
                start = len('\n'.join(out).split('\n')) + 1
                block = '\n'.join(attr + [f'{sig}\n{spec}\n{body}'])
                out += block.split('\n')
                self.fns.append((fn, impl, src, len(out) - len(block.split('\n')) + 1, len(out)))
            except (Lost, OSError, IndexError, ValueError) as e:
                self.lost.append(f'{name}: {key}: {e}')
                if decl: out += decl; self.assumed.append(key)
        self.text = '\n'.join(out)
        if canary: self.text += '\npub mod canary { use vstd::prelude::*; verus! { ' + ' '.join(f'pub uninterp spec fn c{k}() -> bool;' for k in range(len(self.fns))) + ' } }\n'

def split_top(s):
    """The parts between the commas outside brackets and outside the binders of quantifiers."""
    hide = re.sub(r'\b(?:forall|exists)\|[^|]*\||<\'?\w+(?:, ?\'?\w+)+>', lambda m: '_' * len(m.group()), s)
    r, d, k = [], 0, 0
    for i, c in enumerate(hide):
        d += (c in '([{') - (c in ')]}')
        if c == ',' and d == 0: r.append(s[k:i]); k = i + 1
    return [x.strip() for x in r + [s[k:]] if x.strip()]
def owner(impl):
    """The type an impl block is for, or the name of a module."""
    if impl.startswith('mod '): return impl[4:].split()[0]
    m = re.search(r'(?:\bfor\s+|^impl\s*(?:<.*?>)?\s*)(?:[\w$]+::)*([\w$]+)', re.sub(r'<[^<>]*(?:<[^<>]*>[^<>]*)*>', '', impl))
    return m.group(1) if m else ''
def modules(text):
    """[(module path, first line, last line)] of the modules of a file, innermost last."""
    b, r, st, d, line = blank(text), [], [], 0, 1
    for m in re.finditer(r'\bmod (\w+) \{|[{}\n]', b):
        if m.group() == '\n': line += 1
        elif m.group() == '}':
            d -= 1
            if st and st[-1][1] == d: n, _, a = st.pop(); r.append(('::'.join([x[0] for x in st] + [n]), a, line))
        else:
            if m.group(1): st.append((m.group(1), d, line))
            d += 1
    return sorted(r, key=lambda x: x[2] - x[1], reverse=True)
class Run:
    def __init__(self, names, build, tier):
        # a name may say which functions decide the property: FILE:Type::fn,Type::fn
        self.only = {n.split(':', 1)[0]: n.split(':', 1)[1].split(',') if ':' in n else None for n in names}
        self.names, self.dir = list(self.only), os.path.join(build, 'verus')
        os.makedirs(self.dir, exist_ok=True)
        self.notes, self.failed, self.obligations, self.discharged, self.secs, self.cmd, self.evidence = [], [], 0, 0, 0.0, '', []
    def select(self, name, gen):
        """A file that says //@split is verified by modules: those with the functions that decide the property, and those that //@split names."""
        k, part = re.search(r'^//@split (.*)$', gen.text, re.M), []
        if not k or not self.only[name]: return gen.fns, part
        ms = modules(gen.text)
        where = lambda l: next((n for n, a, b in reversed(ms) if a <= l <= b), '')
        mine = {where(l) for fn, impl, _, l, _ in gen.fns if (owner(impl) + '::' if impl else '') + fn in self.only[name]} | set(k.group(1).split())
        return [f for f in gen.fns if where(f[3]) in mine], [x for n in sorted(mine) for x in ('--verify-only-module', n)]
    def verus(self, name, gen, tag):
        f = os.path.join(self.dir, f'{name}{tag}.rs')
        open(f, 'w').write(gen.text)
        cmd = ['verus', f, '--output-json', '--time', '--triggers-mode', 'silent', '--multiple-errors', '0' if tag else '30', '--rlimit', '10' if tag else '60'] + self.select(name, gen)[1]
        e = dict(os.environ); e.pop('RUSTUP_TOOLCHAIN', None)
        try: r = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=400, env=e)
        except subprocess.TimeoutExpired: return None, 'timeout', ' '.join(cmd)
        try: return json.loads(r.stdout), r.stderr, ' '.join(cmd)
        except Exception: return None, r.stderr + r.stdout, ' '.join(cmd)
    def one(self, name):
        assumed = set()
        for _ in range(6):
            bad = self.attempt(name, assumed)
            if not bad or bad <= assumed: break
            assumed |= bad
    def attempt(self, name, assumed):
        gen, can = Gen(name, assumed=assumed), Gen(name, canary=True, assumed=assumed)
        if len(gen.lost) > len(gen.assumed): self.notes += ['anchor lost, not checked by this run: ' + l for l in gen.lost]; return
        ev = dict(file=f'verus/{name}.rs', assumed=[f'{l}; its contract is assumed on this run' for l in gen.lost], functions=[f'{owner(impl) + "::" if impl else ""}{fn} ({src}{", " + impl if impl else ""})' for fn, impl, src, _, _ in self.select(name, gen)[0]], extraction=DROPS, subs=gen.subs)
        box = {}
        t = threading.Thread(target=lambda: box.update(c=self.verus(name, can, '_canary'))); t.start()
        j, err, cmd = self.verus(name, gen, ''); t.join()
        self.cmd = cmd
        errs = [(m.group(1).strip(), [int(x) for x in re.findall(rf'{name}\.rs:(\d+)', blk)], blk) for blk in re.split(r'\n(?=error|warning|note)', '\n' + err) for m in [re.match(r'\n?error(?:\[\w+\])?: (.*)', blk)] if m and not re.match(r'\n?error: aborting', blk)]
        res = (j or {}).get('verification-results') or {}
        if j is None or res.get('encountered-error') and res.get('errors', 0) == 0 or res.get('encountered-vir-error') or 'verified' not in res:
            at = {(owner(impl) + '::' if impl else '') + fn for _, ls, _ in errs for l in ls[:1] for fn, impl, _, a, b in gen.fns if a <= l <= b}
            if at and not at <= assumed: return at
            self.notes.append(f'{name}: the verifier cannot process the extracted functions: ' + '; '.join(e[0] for e in errs)[:300]); ev['status'] = 'undecided'; self.evidence.append(ev); return
        self.notes += [f'anchor lost, its contract is assumed and not checked by this run: {l}' for l in gen.lost]
        def fn_at(ls):
            for l in ls:
                for fn, impl, _, a, b in gen.fns:
                    if a <= l <= b: return (owner(impl) + '::' if impl else '') + fn
            return 'lemma'
        bad = {}
        for msg, ls, blk in errs:
            if re.search(r'rlimit|resource limit|timed out', msg): self.notes.append(f'{name}: {fn_at(ls)}: {msg}'); bad.setdefault(fn_at(ls), None); continue
            if re.search(r'could not compile', msg): continue
            bad.setdefault(fn_at(ls), []); bad[fn_at(ls)] = (bad[fn_at(ls)] or []) + [(msg, blk)]
        n, k = res['verified'] + res['errors'], res['verified']
        self.obligations += n; self.discharged += k
        smt = (j.get('times-ms') or {}).get('smt') or {}
        self.secs += smt.get('total', 0) / 1000 if isinstance(smt, dict) else 0
        for fn, l in bad.items():
            if l and self.only[name] and fn != 'lemma' and fn not in self.only[name]: self.notes.append(f'{name}::{fn} fails its contract; other properties report it'); continue
            if l: self.failed.append((f'{name}::{fn}: ' + '; '.join(sorted({m for m, _ in l}))[:200], '\n'.join(b for _, b in l)))
        ev.update(status='ok' if not bad else 'failed', obligations=n, discharged=k, smt_ms=smt.get('total') if isinstance(smt, dict) else None)
        cj, cerr, _ = box['c']
        weak = []
        cres = (cj or {}).get('verification-results') or {}
        if cres and not cres.get('encountered-vir-error'):
            hit = set()
            for blk in re.split(r'\n(?=error|warning|note)', '\n' + cerr):
                if not re.match(r'\n?error', blk): continue
                for l in map(int, re.findall(rf'{name}_canary\.rs:(\d+)', blk)):
                    for fn, impl, _, a, b in can.fns:
                        if a <= l <= b: hit.add((fn, a))
            weak = [fn for fn, _, _, a, _ in self.select(name, can)[0] if (fn, a) not in hit]
            ev['vacuity'] = 'with an extra unprovable postcondition every function under contract is rejected' if not weak else f'accepted with an unprovable postcondition: {weak}'
        else: ev['vacuity'] = 'not determined'
        for w in weak: self.notes.append(f'{name}: the contract of {w} is vacuous on this tree'); self.discharged -= 1
        self.evidence.append(ev)
    def run(self):
        for n in self.names:
            try: self.one(n)
            except Exception as e: self.notes.append(f'{n}: {type(e).__name__}: {e}')
if __name__ == '__main__':
    import sys
    r = Run(sys.argv[1:], '/verif/.build', 'quick'); t = time.time(); r.run()
    for n in r.notes: print('note', n)
    for a, o in r.failed: print('FAILED', a); print(o[:3000])
    [print(e.get('status'), e.get('vacuity')) for e in r.evidence]; print(r.discharged, '/', r.obligations, r.secs, 's smt', round(time.time() - t, 1), 's')
