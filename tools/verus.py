"""Contracts discharged by Verus (no bound): cuts function bodies out of /repo/src, puts them under the contracts
of verus/*.tmpl.rs and runs the verifier."""
import hashlib, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Anchor(Exception):
    """The text does not have the shape the extraction knows: undecided, never an alarm."""


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.index('*/', i)
            i = j + 2
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def close(text, i, pair='{}'):
    d = 0
    while i < len(text):
        if text[i] == '"':
            i += 1
            while text[i] != '"':
                i += 2 if text[i] == '\\' else 1
        elif text[i] == pair[0]:
            d += 1
        elif text[i] == pair[1]:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Anchor('unbalanced')


def braces(text, start):
    i = text.find('{', start)
    if i < 0:
        raise Anchor('no block')
    return i, close(text, i)


def one(pattern, text, what):
    m = list(re.finditer(pattern, text))
    if len(m) != 1:
        raise Anchor('%s: %d places match' % (what, len(m)))
    return m[0]


def fn_body(text, name, within=None):
    if within:
        m = one(within, text, within)
        a, b = braces(text, m.start())
        text = text[a:b]
    m = one(r'\bfn ' + name + r'\b', text, 'fn ' + name)
    p = close(text, text.index('(', m.end()), '()')
    a, b = braces(text, p)
    return text[a + 1:b]


def struct(text, name):
    m = one(r'\bstruct ' + name + r'\b', text, 'struct ' + name)
    a, b = braces(text, m.start())
    body = re.sub(r"(?m)^(\s*)(\w+):", r"\1pub \2:", text[a + 1:b]).replace("<'static>", '')
    return 'pub struct %s {%s}\n' % (name, body)


def drop_statement(text, pattern):
    """Removes the statements that begin with `pattern` up to their semicolon."""
    while True:
        m = re.search(pattern, text)
        if not m:
            return text
        text = text[:m.start()] + text[statement_end(text, m.end()):]


def statement_end(text, i):
    d = 0
    while i < len(text):
        c = text[i]
        if c == '"':
            i += 1
            while text[i] != '"':
                i += 2 if text[i] == '\\' else 1
        elif c in '({[':
            d += 1
        elif c in ')}]':
            d -= 1
        elif c == ';' and d == 0:
            return i + 1
        i += 1
    raise Anchor('statement without end')


def mark_end(body):
    """Where the body ends with Ok(()), for the vacuity guard."""
    return re.sub(r'\bOk\(\(\)\)\s*$', '/*@END_OF_BODY*/ Ok(())\n', body)


def section(t, unit):
    """Keeps the parts //@IF unit ... //@FI of this unit."""
    return re.sub(r'(?ms)^//@IF ([^\n]*)\n(.*?)^//@FI\n', lambda m: m.group(2) if unit in m.group(1).split() else '', t)


def snippet(tmpl, name):
    m = re.search(r'(?ms)^//@SNIPPET %s\n(.*?)^//@END' % name, tmpl)
    return m.group(1)


def poll_rs(repo, tmpl, unit):
    src = strip_comments(open(os.path.join(repo, 'src/poll.rs')).read())
    src = src.replace('crate::unsupported_error', 'unsupported_error')
    t = section(re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl), unit)
    t = t.replace('//@TYPES', struct(src, 'Fds') + struct(src, 'FdData'))
    t = t.replace('//@BODY cvt', fn_body(src, 'cvt_mode_as_remove'))
    for n in ('add', 'modify', 'delete') if unit == 'poll-ops' else ():
        body = fn_body(src, n, r'\bimpl Poller\b')
        m = one(r'self\s*\.\s*modify_fds\(\s*\|fds\|', body, 'call of modify_fds in ' + n)
        a, b = braces(body, m.end())
        body = re.sub(r'\bfds\.fd_data\[([^\]]+)\]', r'fds.fd_data.get(\1).unwrap()', body[a + 1:b])
        t = t.replace('//@BODY ' + n, mark_end(body))

    if unit == 'poll-ops':
        return t
    w = fn_body(src, 'wait', r'\bimpl Poller\b')
    w = drop_statement(w, r'let span = ')
    w = drop_statement(w, r'let _enter = ')
    w = drop_statement(w, r'tracing::\w+!')
    w = drop_statement(w, r'let deadline = ')
    m = one(r'let timeout_ms = ', w, 'timeout_ms')
    w = w[:m.start()] + 'let timeout_ms = some_timeout();' + w[statement_end(w, m.end()):]
    m = one(r'let mut fds = self\.fds\.lock\(\)\.unwrap\(\);', w, 'lock')
    w = w[:m.start()] + 'let fds = guard; let ghost mut base = *fds;' + w[m.end():]
    m = one(r'fds = self\.operations_complete\.wait\(fds\)\.unwrap\(\);', w, 'wait for operations')
    w = w[:m.start()] + 'self.operations_complete.wait(&mut *fds); proof { base = *fds; }' + w[m.end():]

    # the collecting loop
    w0 = w
    m = one(r'for (\w+) in fds\.fd_data\.values_mut\(\) \{', w, 'collecting loop')
    var = m.group(1)
    end = close(w, m.end() - 1)
    w = (w[:m.start()] + snippet(tmpl, 'collect_head') % var + w[m.end():end + 1] + snippet(tmpl, 'collect_after') + w[end + 1:])
    j = collecting_block(w0)[0]
    w = w[:j] + snippet(tmpl, 'collect_before') + w[j:]
    # the call of poll
    w = thread(w, [r'(?<![.\w])poll\('], 'Tracked(&mut *q)')
    m = one(r'let num_events = [^;]*;', w, 'call of poll')
    w = w[:m.end()] + snippet(tmpl, 'polled') + w[m.end():]
    # the two loops
    m = list(re.finditer(r'\bloop \{', w))
    if len(m) != 2:
        raise Anchor('loops of wait')
    for k, inv in ((1, 'inner_inv'), (0, 'outer_inv')):
        w = w[:m[k].start()] + 'loop\n' + snippet(tmpl, inv) + '{' + w[m[k].end():]
    return t.replace('//@BODY wait', mark_end(w))



def collecting_block(w):
    """(start, brace, end) of the `if` around the loop that collects the events."""
    m = one(r'\bfor \w+ in fds\s*\.\s*fd_data\s*\.\s*values_mut\(\)', w, 'collecting loop')
    i, d = m.start(), 0
    while d >= 0:
        i -= 1
        if i < 0:
            raise Anchor('collecting block')
        d += (w[i] == '}') - (w[i] == '{')
    j = max(w.rfind(c, 0, i) for c in ';{}') + 1
    if not re.match(r'\s*if\b', w[j:]) or re.match(r'\s*else\b', w[close(w, i) + 1:]):
        raise Anchor('collecting block')
    return j, i, close(w, i)


def desugar(text):
    """X.map(|v| E) and X.and_then(|v| E) on options, X a variable, as the match they stand for."""
    while True:
        m = re.search(r'\b(\w+)\s*\.\s*(map|and_then)\(\s*\|(\w+)\|', text)
        if not m:
            return text
        e = close(text, text.index('(', m.end(2)), '()')
        body = text[m.end():e].strip()
        body = 'Some(%s)' % body if m.group(2) == 'map' else body
        text = text[:m.start()] + '(match %s { Some(%s) => %s, None => None })' % (m.group(1), m.group(3), body) + text[e + 1:]


def lib_wait(repo, tmpl, unit):
    src = strip_comments(open(os.path.join(repo, 'src/lib.rs')).read())
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl)
    w = fn_body(src, 'wait')
    w = drop_statement(w, r'let span = ')
    w = drop_statement(w, r'let _enter = ')
    w = drop_statement(w, r'tracing::\w+!')
    w = desugar(w)
    w = re.sub(r'\breturn Ok\(', '/*@END_OF_BODY*/ return Ok(', w)
    w = w.replace('Instant::now()', 'Instant::now(Tracked(&mut *c))')
    m = one(r'let deadline = ', w, 'deadline')
    e = statement_end(w, m.end())
    w = w[:e] + ' let ghost start = c.t; proof { assert(id(start) == start); }' + w[e:]
    m = one(r'self\s*\.\s*poller\s*\.\s*wait\(', w, 'call of the backend')
    e = close(w, m.end() - 1, '()')
    w = w[:e] + ', Tracked(&mut *c), Tracked(&mut *l)' + w[e:]
    m = one(r'\bloop \{', w, 'loop of wait')
    w = w[:m.start()] + 'loop\n' + snippet(tmpl, 'loop_inv') + '{' + w[m.end():]
    return t.replace('//@BODY wait', 'let ghost t0 = c.t; let ghost evs0 = events.events@; proof { assert(id(t0) == t0); }' + w)


def fn_any(text, name, sig):
    """The body of the only function `name` whose parameters begin like those of `sig` (self or not)."""
    want = '&' + ('mut ' if '&mut self' in sig else '') + 'self' if 'self' in sig else None
    r = []
    for m in re.finditer(r'\bfn ' + name + r'\s*\(', text):
        p = close(text, m.end() - 1, '()')
        args = text[m.end():p]
        if ('self' in args) != bool(want):
            continue
        a, b = braces(text, p)
        r.append(text[a + 1:b])
    if len(r) != 1:
        raise Anchor('fn %s: %d functions' % (name, len(r)))
    return r[0]


def impl(text, name):
    """The bodies of all `impl name` blocks."""
    r = []
    for m in re.finditer(r'\bimpl ' + name + r'\s*\{', text):
        a, b = braces(text, m.start())
        r.append(text[a + 1:b])
    if not r:
        raise Anchor('no impl ' + name)
    return '\n'.join(r)


def not_redox(text):
    text = re.sub(r'#\[cfg\(not\(target_os = "redox"\)\)\]', '', text)
    while True:
        m = re.search(r'#\[cfg\(target_os = "redox"\)\]', text)
        if not m:
            return text
        text = text[:m.start()] + text[statement_end(text, m.end()):]


def question(text):
    """`E?` at the end of a statement, as the match it stands for."""
    while True:
        m = re.search(r'\?\s*;', text)
        if not m:
            return text
        i, d = m.start() - 1, 0
        while i >= 0 and (d > 0 or text[i] not in ';{}(='):
            d += (text[i] in ')]}') - (text[i] in '([{')
            if d < 0:
                break
            i -= 1
        text = (text[:i + 1] + ' match ' + text[i + 1:m.start()].strip() + ' { Ok(v_) => v_, Err(e_) => return Err(e_.io_()) };' +
                text[m.end():])


def operand(text, i):
    """The start of the postfix expression that ends before i."""
    i -= 1
    while True:
        while i >= 0 and text[i].isspace():
            i -= 1
        if text[i] in ')]':
            d = 0
            while True:
                d += (text[i] in ')]}') - (text[i] in '([{')
                if d == 0:
                    break
                i -= 1
            i -= 1
        if not (text[i].isalnum() or text[i] == '_'):
            raise Anchor('operand')
        while text[i].isalnum() or text[i] == '_':
            i -= 1
        j = i
        while text[j].isspace():
            j -= 1
        if text[j] == '.':
            i = j - 1
        elif text[j - 1:j + 1] == '::':
            i = j - 2
        else:
            return i + 1


def or_else(text):
    """`X.or_else(|_| B)?` as the match it stands for."""
    while True:
        m = re.search(r'\.or_else\(\s*\|_\|', text)
        if not m:
            return text
        e = close(text, text.index('(', m.start()), '()')
        q = re.match(r'\s*\?', text[e + 1:])
        b = text[m.end():e]
        if not q or re.search(r'\breturn\b', b):
            raise Anchor('or_else')
        i = operand(text, m.start())
        text = (text[:i] + 'match ' + text[i:m.start()].strip() + ' { Ok(v_) => v_, Err(_) => { let c_ = ' + b +
                '; match c_ { Ok(v_) => v_, Err(e_) => return Err(e_.io_()) } } }' + text[e + 1 + q.end():])


def question_any(text):
    """The remaining `E?`, E a postfix expression, as the match it stands for."""
    while True:
        m = re.search(r'\?', text)
        if not m:
            return text
        i = operand(text, m.start())
        text = (text[:i] + '(match ' + text[i:m.start()].strip() + ' { Ok(v_) => v_, Err(e_) => return Err(e_.io_()) })' +
                text[m.end():])


def thread(text, calls, tok):
    """Gives the calls matched by the patterns the ghost token."""
    for c in calls:
        for m in reversed(list(re.finditer(c, text))):
            e = close(text, m.end() - 1, '()')
            args = text[m.end():e].rstrip()
            sep = '' if not args or args.endswith(',') else ', '
            text = text[:e].rstrip() + sep + tok + text[e:]
    return text


def desugar_while(text, inv):
    while True:
        m = re.search(r'\bwhile ', text)
        if not m:
            return text
        i = m.end()
        d = 0
        while text[i] != '{' or d:
            d += (text[i] in '([') - (text[i] in ')]')
            i += 1
        e = close(text, i)
        text = text[:m.start()] + 'loop\n%s{ if !(%s) { break; } %s }' % (inv, text[m.end():i].strip(), text[i + 1:e]) + text[e + 1:]


TOKEN = 'Tracked(&mut *k)'


def epoll_body(w, tmpl, const=False):
    w = not_redox(w)
    w = drop_statement(w, r'let span = ')
    w = drop_statement(w, r'let _enter = ')
    w = drop_statement(w, r'tracing::\w+!')
    w = re.sub(r'\.\.unsafe \{ std::mem::zeroed\(\) \}', '', w)
    w = re.sub(r'([\w.]+) ([|&])= ([^;]+);', r'\1 = \1 \2 (\3);', w)
    w = re.sub(r'\b(?:rustix::)?(?:io::)?(?=Errno\b)', '', w)
    w = re.sub(r'\bErr\((\w+)\.into\(\)\)', r'Err(\1.io_())', w)
    w = re.sub(r'(\w+)\.to_ne_bytes\(\)', r'ne_bytes(\1)', w)
    w = re.sub(r'\bcrate::|\bsys::|rustix::fd::|\bnotify::(?=Notify)', '', w)
    w = w.replace('cfg!(polling_test_epoll_pipe)', 'cfg_pipe()').replace('epoll::create(', 'epoll_create(').replace('epoll::CreateFlags', 'Flags')
    w = question(or_else(w))
    w = question_any(w)
    w = thread(w, [r'\b(?:epoll_create|eventfd|timerfd_create|pipe_with|pipe|fcntl_[gs]etf[dl])\(', r'\bNotifier::new\(', r'\bPoller::new\(', r'(?<![.\w])poller\.add\(',
                   r'\bself\.delete\(', r'(?<![:\w])Notify::new\(', r'\bepoll::(?:add|modify|delete|wait)\(', r'\btimerfd_settime\(', r'(?<![.\w])(?:read|write)\(',
                   r'\bself\.(?:add_with_mode|modify_with_mode|add|modify)\(', r'\bself\s*\.\s*notifier\s*\.\s*(?:clear|notify)\(',
                   r'\bself\s*\.\s*poller\s*\.\s*(?:add|modify|delete|notify)\('], TOKEN)
    w = desugar_while(w, snippet(tmpl, 'drain' if '//@EPOLL' in tmpl or 'SNIPPET drain_poll' not in tmpl else 'drain_poll'))
    if re.search(r'\bOk\(poller\)\s*$', w):
        return re.sub(r'\bOk\(poller\)\s*$', '/*@END_OF_BODY*/ Ok(poller)', w)
    if re.search(r';\s*$', w):
        return w + ' /*@END_OF_BODY*/ '
    return mark_end(w) if re.search(r'\bOk\(\(\)\)\s*$', w) or const else ' let r_ = { %s }; /*@END_OF_BODY*/ r_ ' % w


def notify_pipe(src):
    """The notifier of poll.rs that is a pipe, on Linux."""
    m = one(r'#\[cfg\(not\([^\]]*\]\s*mod notify\b', src, 'mod notify')
    a, b = braces(src, m.start())
    w = src[a + 1:b]
    w = re.sub(r'#\[cfg\(not\(target_os = "(?:haiku|vita)"\)\)\]', '', w)
    while True:
        m = re.search(r'#\[cfg\(target_os = "(?:haiku|vita)"\)\]', w)
        if not m:
            break
        w = w[:m.start()] + w[statement_end(w, m.end()):]
    # a named closure at its only use
    for m in reversed(list(re.finditer(r'let (\w+) = \|_\| (?=\{)', w))):
        e = close(w, m.end())
        body, n = w[m.end():e + 1], m.group(1)
        w = w[:m.start()] + w[statement_end(w, e + 1):]
        u = one(r'\.or_else\(\s*%s\s*\)' % n, w, n)
        w = w[:u.start()] + '.or_else(|_| ' + body + ')' + w[u.end():]
    return 'impl Notify {' + impl(w, 'Notify') + '}\n'


def epoll_rs(repo, tmpl, unit):
    src = not_redox(strip_comments(open(os.path.join(repo, 'src/poll.rs' if unit.startswith('poll') else 'src/epoll.rs')).read()))
    lib = strip_comments(open(os.path.join(repo, 'src/lib.rs')).read())
    if unit == 'poll-new':
        tmpl = re.sub(r'(?ms)^//@EPOLL\n.*?^//@LLOPE\n', '', tmpl)
        src = notify_pipe(src) + impl(src, 'Poller').join(['\nimpl Poller {', '}\n'])
    t = section(re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl), unit)
    if '//@TYPES' in t:
        m = one(r'\bconst NOTIFY_KEY: usize = [^;]*;', lib, 'NOTIFY_KEY')
        t = t.replace('//@CONST NOTIFY_KEY', 'pub ' + m.group(0))
    # a clause list of several lines
    t = re.sub(r'(?ms)^//@NEWFN (.*?)^//@END\n', lambda m: '//@FN |' + m.group(1).replace('\n', '\x01') + '\n', t)
    if '//@TYPES' in t:
        m = one(r'\benum Notifier\b', src, 'enum Notifier')
        a, b = braces(src, m.start())
        t = t.replace('//@TYPES', 'pub enum Notifier {%s}\n' % src[a + 1:b] + struct(src, 'Poller'))

    cur = None
    out = []
    for l in t.split('\n'):
        m = re.match(r'impl (\w+)', l)
        if m:
            cur = m.group(1)
        m = re.match(r'//@(LIB)?TRAITFN ', l)
        if m:
            tr, sig, clause = l[m.end():].split('|')
            name = sig.split('(')[0]
            out.append('pub fn %s\n    %s\n{%s}' % (sig, clause, epoll_body(fn_any(impl(lib if m.group(1) else src, tr + ' for Poller'), name, sig), tmpl)))
            continue
        if l == '//@LIBNEW':
            b = fn_any(impl(lib, 'Poller'), 'new', '')
            out.append(epoll_body(re.sub(r'\b(?:Poller|Self)\s*\{', 'PollerApi {', b), tmpl))
            continue
        if l.startswith('//@DROPBODY '):
            out.append(epoll_body(fn_any(impl(src, 'Drop for ' + cur), 'drop', '&mut self'), tmpl))
            continue
        m = re.match(r'//@(LIBFN|FN) ([^|]*)\|(\w+)([^|]*)\|(.*)', l)
        if m:
            text = impl(lib if m.group(1) == 'LIBFN' else src, 'Poller' if cur == 'PollerApi' else cur)
            name, sig = m.group(3), m.group(4)
            body = epoll_body(fn_any(text, name, sig), tmpl, 'const' in m.group(2))
            if sig.startswith('(self)'):
                # a parameter `mut self`
                body = ' let mut self_ = self; ' + re.sub(r'\bself\b', 'self_', body)
            if cur in ('Notifier', 'Notify') and name in ('notify', 'clear', 'new', 'pop_notification', 'pop_all_notifications'):
                sig = thread(sig.replace('(', 'fn_(', 1), [r'fn_\('], 'Tracked(k): Tracked<&mut Kernel>').replace('fn_(', '(', 1)
            attr = ''
            vis = m.group(2)
            if vis.startswith('#['):
                attr, vis = vis, ''
            clause = m.group(5).replace('requires ', '\n    requires ').replace('ensures ', '\n    ensures ')
            out.append('%s\n%s fn %s%s%s\n{%s}' % (attr, vis, name, sig, clause, body))
            continue
        if l.startswith('//@GUARDED '):
            sig, fd = l[len('//@GUARDED '):].split('|')
            b = fn_any(impl(src, 'Poller'), sig.split('(')[0], 'self')
            m = one(r'self\s*\.\s*modify_fds\(', b, 'call of modify_fds')
            e = close(b, m.end() - 1, '()')
            b = b[:m.end()] + 'op_, ' + fd + b[e:]
            out.append(snippet(tmpl, 'guarded') % {'sig': sig, 'fd': fd} + '{%s}' % epoll_body(b, tmpl))
            continue
        m = re.match(r'//@OP (\w+)\|(\w*)\|([^|]*)\|(.*)', l)
        if m:
            sig = m.group(3)[:-1] + ', Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)'
            out.append(snippet(tmpl, 'op') % {'unsafe': m.group(2), 'sig': sig, 'fd': m.group(4), 'op': 'true' if m.group(1) == 'add' else 'false'}
                       + '{%s}' % epoll_body(fn_any(impl(src, 'Poller'), m.group(1), 'self'), tmpl))
            continue
        m = re.match(r'//@API (\w+)\|(\w*)\|([^|]*)\|([^|]*)\|(\w+)', l)
        if m:
            sig = m.group(3)[:-1] + ', Tracked(k): Tracked<&mut Kernel>) -> (r: io::Result<()>)'
            out.append(snippet(tmpl, 'api') % {'unsafe': m.group(2), 'sig': sig, 'mode': m.group(4), 'op': 'true' if m.group(5) == 'add' else 'false'}
                       + '{%s}' % epoll_body(fn_any(impl(lib, 'Poller'), m.group(1), 'self'), tmpl))
            continue
        m = re.match(r'//@BODY (\w+)', l)
        if m:
            n = m.group(1)
            out.append(epoll_body(fn_any(src, n, '') if n.endswith(('flags', '_events')) else fn_any(impl(src, 'Poller'), n, '' if n == 'new' else 'self'), tmpl))
            continue
        m = re.match(r'//@LIBBODY (\w+)', l)
        if m:
            out.append(epoll_body(fn_any(impl(lib, 'Poller'), m.group(1), 'self'), tmpl))
            continue
        m = re.match(r'//@CLOSURE (\w+)', l)
        if m:
            it = fn_any(impl(src if m.group(1) == 'event_of' else lib, 'Events'), 'iter', 'self')
            c = one(r'\.%s\(\s*\|ev\|' % ('map' if m.group(1) == 'event_of' else 'filter'), it, 'closure of iter')
            e = close(it, it.index('(', c.start()), '()')
            out.append(it[c.end():e])
            continue
        out.append(l)
    return '\n'.join(out).replace('\x01', '\n')


def lib_notify(repo, tmpl, unit):
    src = impl(strip_comments(open(os.path.join(repo, 'src/lib.rs')).read()), 'Poller')
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl)
    tok = 'Tracked(&mut *s)'
    for n in ('wait', 'notify'):
        w = fn_body(src, n)
        w = drop_statement(w, r'let span = ')
        w = drop_statement(w, r'let _enter = ')
        w = drop_statement(w, r'tracing::\w+!')
        w = question(desugar(w))
        w = thread(w, [r'\bself\s*\.\s*poller\s*\.\s*(?:wait|notify)\(', r'\bself\s*\.\s*lock\s*\.\s*try_lock\('], tok)
        w = thread(w, [r'\bself\s*\.\s*notified\s*\.\s*\w+\('], 'Ghost(%s), %s' % ('true' if n == 'wait' else 'false', tok))
        if n == 'wait':
            m = one(r'\bloop \{', w, 'loop of wait')
            w = w[:m.start()] + 'loop\n' + snippet(tmpl, 'loop_inv') + '{' + w[m.end():]
            w = re.sub(r'\breturn Ok\(', '/*@END_OF_BODY*/ return Ok(', w)
        t = t.replace('//@BODY ' + n, mark_end(w))
    return t


def poll_notify(repo, tmpl, unit):
    src = impl(strip_comments(open(os.path.join(repo, 'src/poll.rs')).read()), 'Poller')
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl)
    tok = 'Tracked(&mut *s)'
    for n in ('wait', 'notify', 'modify_fds'):
        w = fn_body(src, n)
        for d in (r'let span = ', r'let _enter = ', r'tracing::\w+!', r'let deadline = '):
            w = drop_statement(w, d)
        if n == 'wait':
            m = one(r'let timeout_ms = ', w, 'timeout_ms')
            w = w[:m.start()] + 'let timeout_ms = some_timeout();' + w[statement_end(w, m.end()):]
            if 'values_mut' in w:
                _, i, e = collecting_block(w)
            else:
                i = one(r'if num_fd_events > 0 \{', w, 'collecting block').end() - 1
                e = close(w, i)
            w = w[:i] + '{ collect(&mut fds, events, num_fd_events); ' + w[e:]
        w = re.sub(r'(?<![.\w])f\(&mut fds\)', 'f.run(&mut fds, %s)' % tok, w)
        w = re.sub(r'(?<![.\w])(?:(?:std|core)::)?(?:mem::)?drop\((\w+)\)', r'unlock(\1, %s)' % tok, w)
        w = question(w)
        w = thread(w, [r'\bself\s*\.\s*(?:notify|notified|waiting_operations|operations_complete|fds)\s*\.\s*\w+\(', r'(?<![.\w])poll\('], tok)
        if n == 'wait':
            m = list(re.finditer(r'\bloop \{', w))
            if len(m) != 2:
                raise Anchor('loops of wait')
            for k, e in ((1, 'inner_ens'), (0, 'outer_ens')):
                w = w[:m[k].start()] + 'loop\n' + snippet(tmpl, 'loop_inv') + snippet(tmpl, e) + '{' + w[m[k].end():]
        w = mark_end(w)
        if '/*@END' not in w:
            w = ' let r_ = { %s }; /*@END_OF_BODY*/ r_ ' % w
        t = t.replace('//@BODY ' + n, w)
    return t


def poll_time(repo, tmpl, unit):
    src = impl(strip_comments(open(os.path.join(repo, 'src/poll.rs')).read()), 'Poller')
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl)
    w = fn_body(src, 'wait')
    for d in (r'let span = ', r'let _enter = ', r'tracing::\w+!'):
        w = drop_statement(w, d)
    if 'values_mut' in w:
        _, i, e = collecting_block(w)
    else:
        i = one(r'if num_fd_events > 0 \{', w, 'collecting block').end() - 1
        e = close(w, i)
    w = w[:i] + '{ collect(&mut fds, events, num_fd_events); ' + w[e:]
    w = re.sub(r'\bstd::([iu]\d+)::', r'\1::', w)
    w = question(desugar(w))
    w = thread(w, [r'\bInstant::now\(', r'(?<![.\w])poll\('], 'Tracked(&mut *c)')
    m = one(r'let deadline = ', w, 'deadline')
    e = statement_end(w, m.end())
    w = w[:e] + ' let ghost start = c.t; proof { assert(id(start) == start); }' + w[e:]
    m = list(re.finditer(r'\bloop \{', w))
    if len(m) != 2:
        raise Anchor('loops of wait')
    for k, x in ((1, ''), (0, snippet(tmpl, 'outer_ens'))):
        w = w[:m[k].start()] + 'loop\n' + snippet(tmpl, 'inv') + x + '{' + w[m[k].end():]
    return t.replace('//@BODY wait', mark_end(w))


def closure_spec(text, adapter, spec):
    """Gives the closure of the adapter its contract."""
    ms = list(re.finditer(r'\.\s*%s\(\s*\|\s*&?(\w+)\s*\|' % adapter, text))
    for m in reversed(ms):
        e = close(text, text.index('(', m.start()), '()')
        body = text[m.end():e].strip()
        if re.match(r'\.\s*%s\(\s*\|\s*&' % adapter, m.group(0)):
            raise Anchor('pattern of the closure')
        head = spec % {'v': m.group(1)}
        text = text[:m.start()] + '.%s(|%s { %s }' % (adapter, head, body) + text[e:]
    return text


def lists(repo, tmpl, unit):
    src = {n: strip_comments(open(os.path.join(repo, 'src/%s.rs' % n)).read()) for n in ('lib', 'epoll', 'poll')}
    snip = {n: snippet(tmpl, n) for n in ('sys', 'lib')}
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl)

    def fill(text, file, t):
        def body(m):
            n = m.group(1)
            if n == 'default':
                b = fn_any(impl(text, 'Default for Events'), n, '')
            else:
                b = fn_any(impl(text, 'Events'), n, {'with_capacity': '', 'new': '', 'clear': '&mut self'}.get(n, 'self'))
            b = re.sub(r'#\[cfg\(target_os = "espidf"\)\]\s*const[^;]*;', '', b)
            b = re.sub(r'#\[cfg\(not\(target_os = "espidf"\)\)\]', '', b)
            b = re.sub(r'\bconst (\w+: usize = [^;]*;)', r'let \1', b)
            b = re.sub(r'\bcrate::', '', b)
            if file == 'lib':
                b = closure_spec(b, 'filter', '%(v)s: &Event| -> (b_: bool) ensures b_ == (%(v)s.key != usize::MAX), // [C04 C13]\n')
            else:
                b = closure_spec(b, 'map', '%(v)s: &epoll::RawEvent| -> (r_: Event) ensures r_ == decoded(*%(v)s), // [C01 C02 C12]\n')
            return b.rstrip() + ' /*@END_OF_BODY*/ ' if re.search(r';\s*$', b) else ' let r_ = { %s }; /*@END_OF_BODY*/ r_ ' % b
        return re.sub(r'(?m)^//@BODY (\w+)', body, t)

    for n in ('epoll', 'poll'):
        t = t.replace('//@LISTS ' + n, fill(src[n], n, snip['sys']))
    for n in ('ep', 'po'):
        t = t.replace('//@API ' + n, fill(src['lib'], 'lib', snip['lib'] % {'sys': n}))
    return t


def plain_body(w):
    """The common steps: tracing, paths, `|=`, local constants, `?`."""
    for d in (r'let span = ', r'let _enter = ', r'tracing::\w+!'):
        w = drop_statement(w, d)
    w = re.sub(r'([\w.]+) ([|&])= ([^;]+);', r'\1 = \1 \2 (\3);', w)
    w = re.sub(r'\b(?:rustix::)?(?:io::)?(?=Errno\b)|\bcrate::', '', w)
    w = re.sub(r'\bErr\((\w+)\.into\(\)\)', r'Err(\1.io_())', w)
    w = re.sub(r'\bconst (\w+: \w+ = [^;]*;)', r'let \1', w)
    return question_any(question(w))


def port_rs(repo, tmpl, unit):
    src = strip_comments(open(os.path.join(repo, 'src/port.rs')).read())
    lib = strip_comments(open(os.path.join(repo, 'src/lib.rs')).read())
    one(r'\bconst NOTIFY_KEY: usize = (?:std::)?usize::MAX;', lib, 'NOTIFY_KEY')
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', tmpl)
    t = re.sub(r'(?m)^//@REGISTER (\w*)\|(\w+)\|([^|]*)\|(.*)$',
               lambda m: snippet(tmpl, 'register') % {'unsafe': m.group(1), 'name': m.group(2), 'fd': m.group(3), 'key': m.group(4)}, t)

    def body(m):
        where, n = m.group(1), m.group(2)
        b = None
        for want in ('self', ''):
            try:
                b = fn_any(src if where == '-' else impl(src, where), n, want)
                break
            except Anchor:
                if not want:
                    raise
        b = re.sub(r'\s+as _\b', '', plain_body(b))
        b = closure_spec(b, 'map', '%(v)s: &port::Event| -> (r_: Event) ensures r_ == decoded(*%(v)s), // [C20]\n')
        b = re.sub(r'\bVec::', 'List::', b)
        b = thread(b, [r'\bport::port_\w+\(', r'\bfcntl_[gs]etfd\(', r'\bself\.(?:add|modify|delete|wait|notify)\('], TOKEN)
        if n == 'empty' and where == 'EventExtra':
            return b
        return b.rstrip() + ' /*@END_OF_BODY*/ ' if re.search(r';\s*$', b) else ' let r_ = { %s }; /*@END_OF_BODY*/ r_ ' % b
    return re.sub(r'(?m)^//@BODY ([^|\n]*)\|(\w+)$', body, t)


def kqueue_rs(repo, tmpl, unit):
    read = lambda n: strip_comments(open(os.path.join(repo, 'src', n)).read())
    src, lib = read('kqueue.rs'), read('lib.rs')
    one(r'\bconst NOTIFY_KEY: usize = (?:std::)?usize::MAX;', lib, 'NOTIFY_KEY')
    # the notifiers: the one of the systems with user events comes first
    mods = list(re.finditer(r'#\[cfg\((not\()?any\(([^\]]*)\]\s*mod notify\b', src))
    if len(mods) != 2 or mods[0].group(1) or not mods[1].group(1) or re.sub(r'\W', '', mods[0].group(2)) != re.sub(r'\W', '', mods[1].group(2)):
        raise Anchor('notifiers')
    texts, main = [], src
    for m in reversed(mods):
        a, b = braces(src, m.end())
        texts.insert(0, src[a + 1:b])
        main = main[:m.start()] + main[b + 1:]
    files = {'kqueue': main, 'notify': texts[unit == 'kqueue-pipe'], 'os': read('os/kqueue.rs')}
    t = re.sub(r'(?ms)^//@SNIPPET.*?^//@END\n', '', section(tmpl, unit))

    def body(m):
        text, where, n = files[m.group(1)], m.group(2), m.group(3)
        if where != '-':
            ms = list(re.finditer(r'\bimpl\s*(?:<T: FilterSealed \+ \?Sized>\s*)?%s\s*\{' % re.escape(where), text))
            if len(ms) != 1:
                raise Anchor('impl ' + where)
            a, e = braces(text, ms[0].end() - 1)
            text = text[a + 1:e]
        b = fn_body(text, n)
        b = re.sub(r'\s+as _\b', '', plain_body(b))
        if n == 'submit_changes':
            b = b.replace('.as_ref()', '.as_slice()')
            f = one(r'\bfor\s+&?(\w+)\s+in\s+(?:&eventlist|eventlist\.iter\(\)|eventlist)\s*\{', b, 'the loop over the receipts')
            b = b[:f.start()] + 'let mut i_: usize = 0; while i_ < eventlist.len()\n' + snippet(tmpl, 'receipts') + \
                '{ let %s = eventlist.at_(i_); i_ = i_ + 1; ' % f.group(1) + b[f.end():]
        if n == 'wait':
            b = re.sub(r'&changelist\b', 'changelist.as_slice()', re.sub(r'\blet changelist = \[\];', 'let changelist: [kqueue::Event; 0] = [];', b))
        b = re.sub(r'use kqueue::EventFlags as (\w+);', '', re.sub(r'\bEV::', 'kqueue::EventFlags::', b))
        b = b.replace('.unwrap_or_else(|e| e.into_inner())', '') if n.endswith('_source') else b
        b = re.sub(r'\s*\.unwrap_or_else\(\|\w+\| \w+\.into_inner\(\)\)', '', b) if n.endswith('_source') else b
        b = re.sub(r'_lt: PhantomData,?', '', b)
        b = re.sub(r'\brustix::process::', 'process::', b)
        b = re.sub(r'\bnotify::(?=Notify)', '', b)
        b = closure_spec(b, 'map', '%(v)s: &kqueue::Event| -> (r_: Event) ensures r_ == decoded(*%(v)s), // [C19]\n')
        b = re.sub(r'\bVec::', 'List::', b)
        b = re.sub(r'\(&(self\.\w+_stream)\)', r'\1', b)
        if unit == 'kqueue':
            b = re.sub(r'\bOk\(Self\)', 'Ok(Self { _p: () })', b)
        calls = [r'\bkqueue::(?:kqueue|kevent)\(', r'\bfcntl_setfd\(', r'(?<![.\w])self\s*\.\s*(?:poller\s*\.\s*)?(?:submit_changes|\w+_source|add|modify|delete|wait|notify|modify_filter|add_filter|delete_filter)\(',
                 r'(?<![.\w])poller\s*\.\s*(?:submit_changes|\w+_source|add|modify|delete)\(', r'\b(?:self|poller)\s*\.\s*notify\s*\.\s*(?:register|reregister|notify)\(']
        if n.endswith('_source') and n != 'source_id':
            calls.append(r'\.\s*(?:insert|remove|contains)\(')
        if unit == 'kqueue-pipe':
            calls += [r'\bUnixStream::pair\(', r'\.set_nonblocking\(', r'(?<![:\w])Notify::new\(', r'_stream\s*\.\s*(?:read|write)\(']
        b = thread(b, calls, TOKEN)
        if unit == 'kqueue-pipe' and n == 'reregister':
            b = 'let ghost k0 = *k; ' + desugar_while(b, snippet(tmpl, 'drain'))
        return b.rstrip() + ' /*@END_OF_BODY*/ ' if re.search(r';\s*$', b) else ' let r_ = { %s }; /*@END_OF_BODY*/ r_ ' % b
    return re.sub(r'(?m)^//@BODY (\w+)\|([^|\n]*)\|(\w+)$', body, t)


# unit -> (template, generator, functions of the repository under contract)
UNITS = {
    'poll-ops': ('poll.tmpl.rs', poll_rs,
                 ['poll.rs: Poller::add, closure under the lock', 'poll.rs: Poller::modify, closure under the lock',
                  'poll.rs: Poller::delete, closure under the lock', 'poll.rs: cvt_mode_as_remove']),
    'lib-wait': ('libwait.tmpl.rs', lib_wait, ['lib.rs: Poller::wait']),
    'epoll': ('epoll.tmpl.rs', epoll_rs,
              ['epoll.rs: Poller::add, modify, delete, wait, notify', 'epoll.rs: epoll_flags, read_flags, write_flags',
               'epoll.rs: Events::iter (decoding of an event)', 'epoll.rs: Notifier::as_fd, notify, clear', 'epoll.rs: EventExtra::*',
               'lib.rs: Poller::add, add_with_mode, modify, modify_with_mode, delete', 'lib.rs: Events::iter (filter)',
               'lib.rs: Event::new, all, readable, writable, none, set_*, with_*, is_*, clear_extra']),
    'epoll-new': ('epoll.tmpl.rs', epoll_rs,
                  ['epoll.rs: Poller::new, supports_level, supports_edge, add, delete', 'epoll.rs: Notifier::new',
                   'epoll.rs: AsRawFd and AsFd of Poller', 'epoll.rs: Drop of Poller',
                  'lib.rs: Poller::new, supports_level, supports_edge, AsRawFd and AsFd of Poller']),
    'lib-notify': ('libnotify.tmpl.rs', lib_notify, ['lib.rs: Poller::wait', 'lib.rs: Poller::notify']),
    'poll-notify': ('pollnotify.tmpl.rs', poll_notify,
                    ['poll.rs: Poller::wait (control flow)', 'poll.rs: Poller::notify', 'poll.rs: Poller::modify_fds']),
    'poll-new': ('epoll.tmpl.rs', epoll_rs,
                 ['poll.rs: Poller::new, supports_level, supports_edge', 'poll.rs: Poller::add, modify, delete (what surrounds the closure)',
                  'poll.rs: Notify::new, fd, poll_flags, has_fd, notify, pop_notification, pop_all_notifications']),
    'poll-masks': ('pollmasks.tmpl.rs', epoll_rs,
                   ['poll.rs: poll_events, read_events, write_events', 'poll.rs: EventExtra::*', 'lib.rs: Event::new, none, set_*, with_*, is_*, clear_extra']),
    'poll-time': ('polltime.tmpl.rs', poll_time, ['poll.rs: Poller::wait (its sleeps)']),
    'lists': ('lists.tmpl.rs', lists,
              ['lib.rs: Events::default, new, with_capacity, iter, clear, len, is_empty, capacity',
               'epoll.rs: Events::with_capacity, iter, clear, capacity', 'poll.rs: Events::with_capacity, iter, clear, capacity']),
    'port': ('port.tmpl.rs', port_rs,
             ['port.rs: Poller::new, supports_level, supports_edge, add, modify, delete, wait, notify, AsRawFd, AsFd', 'port.rs: read_flags, write_flags',
              'port.rs: Events::with_capacity, iter, clear, capacity', 'port.rs: EventExtra::*']),
    'kqueue': ('kqueue.tmpl.rs', kqueue_rs,
               ['kqueue.rs: Poller::new, supports_level, supports_edge, add, modify, delete, submit_changes, add_source, has_source, remove_source, wait, notify, AsRawFd, AsFd',
                'kqueue.rs: mode_to_flags', 'kqueue.rs: Events::with_capacity, iter, clear, capacity',
                'kqueue.rs: Notify::new, register, reregister, notify (user event)',
                'os/kqueue.rs: add_filter, modify_filter, delete_filter', 'os/kqueue.rs: filter and source_id of &T, Signal, Process, Timer', 'os/kqueue.rs: Process::new, from_pid']),
    'kqueue-pipe': ('kqueue.tmpl.rs', kqueue_rs,
                    ['kqueue.rs: Poller::* as in the unit kqueue, with the notifier that is a socket pair', 'kqueue.rs: Notify::new, register, reregister, notify (socket pair)']),
    'poll-wait': ('poll.tmpl.rs', poll_rs, ['poll.rs: Poller::wait (all but the computation of timeout_ms)']),
}


# the configuration whose code the unit is
CFG = {'kqueue': None, 'kqueue-pipe': None, 'port': None, 'lists': 'epoll', 'lib-wait': 'epoll', 'epoll-new': 'epoll', 'epoll': 'epoll', 'poll-notify': 'poll', 'poll-time': 'poll', 'poll-masks': 'poll', 'poll-new': 'poll', 'lib-notify': 'epoll', 'poll-ops': 'poll', 'poll-wait': 'poll'}

# what an obligation without a tag belongs to: the code panics there, or a step of the argument fails
OWN = {'kqueue': {'C19'}, 'kqueue-pipe': {'C19'}, 'port': {'C20'}, 'lists': {'C13'}, 'poll-ops': {'C10', 'C12', 'C13'}, 'poll-wait': {'C10', 'C12', 'C13'}, 'lib-wait': {'C05', 'C06'}, 'epoll': {'C05', 'C10'}, 'epoll-new': {'C14'},
       'lib-notify': {'C07'}, 'poll-notify': {'C07', 'C16'}, 'poll-time': {'C05', 'C06'}, 'poll-masks': {'C15'}, 'poll-new': {'C14'}}


def props_of(unit):
    t = section(open(os.path.join(ROOT, 'verus', UNITS[unit][0])).read(), unit)
    r = set()
    for m in re.finditer(r'\[((?:C\d\d ?)+)\]', t):
        r.update(m.group(1).split())
    return r


def verify(text, out, timeout, extra=()):
    open(out, 'w').write(text)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('RUST', 'CARGO')) or k in ('RUSTUP_HOME', 'CARGO_HOME')}
    cmd = ['verus', out, '--triggers-mode', 'silent', '--multiple-errors', '10', '--time'] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env,
                           cwd=os.path.dirname(out))
        return p.stdout, time.time() - t0
    except subprocess.TimeoutExpired:
        return 'TIMEOUT', time.time() - t0


def run(unit, repo, work, timeout=240):
    """{'status': proved|failed|undecided, 'why', 'verified': n, 'failures': [(text, line, props)], ...}"""
    tmpl_name, gen, fns = UNITS[unit]
    r = {'unit': unit, 'status': 'undecided', 'why': '', 'verified': 0, 'failures': [], 'functions': fns, 'time': 0.0, 'clauses': 0,
         'output': ''}
    try:
        text = gen(repo, open(os.path.join(ROOT, 'verus', tmpl_name)).read(), unit)
    except Exception as e:
        r['why'] = 'the code does not have the shape the extraction knows (%s)' % e
        return r
    os.makedirs(work, exist_ok=True)
    r['sha'] = hashlib.sha256(text.encode()).hexdigest()
    # the clauses and proof steps that carry a property
    r['clauses'] = len(re.findall(r'\[(?:C\d\d ?)+\]', text))
    path = os.path.join(work, 'verus_%s.rs' % unit)
    out, r['time'] = verify(text, path, timeout)
    r['output'] = out[-6000:]
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
    ms = re.search(r'total smt-run:\s+(\d+) ms', out)
    r['smt_ms'] = int(ms.group(1)) if ms else None
    if not m:
        e = re.search(r'^error.*', out, re.M)
        r['why'] = 'the verifier does not accept the extracted text: ' + (e.group(0)[:300] if e else out[:200])
        return r
    r['verified'] = int(m.group(1))
    if m.group(2) == '0':
        # vacuity: the end of every function under contract must not be provably unreachable
        bad = text.replace('/*@END_OF_BODY*/', 'proof { assert(false); }')
        n = text.count('/*@END_OF_BODY*/')
        out2, t2 = verify(bad, os.path.join(work, 'verus_%s_vacuity.rs' % unit), timeout)
        r['time'] += t2
        m2 = re.search(r'verification results:: (\d+) verified, (\d+) errors', out2)
        got = len(re.findall(r'^error: assertion failed', out2, re.M)) if m2 else -1
        r['reachable'] = '%d of %d' % (got, n)
        if got != n:
            r['why'] = 'vacuous: only %d of %d functions can end' % (got, n)
            return r
        r['status'] = 'proved'
        return r
    lines = text.split('\n')
    for blk in re.split(r'(?m)^(?=error)', out)[1:]:
        if blk.startswith(('error: aborting', 'error: could not compile')):
            continue
        if re.match(r'error: .*(rlimit|Resource limit|not supported|canceled)', blk):
            r['why'] = blk.split('\n')[0]
            continue
        head = blk.split('\n')[0][7:]
        props = set()
        m = re.search(r'--> \S+?:(\d+):', blk)
        ln = int(m.group(1)) if m else 0
        for g in re.finditer(r'\[((?:C\d\d ?)+)\]', lines[ln - 1] if ln else ''):
            props.update(g.group(1).split())
        # a precondition: the clause is at the callee
        for g in () if props else re.finditer(r'\[((?:C\d\d ?)+)\]', blk):
            props.update(g.group(1).split())
        # an obligation without a property of its own: the code may panic, or a step of the argument fails
        props = props or OWN[unit]
        r['failures'].append((head + ': ' + (lines[ln - 1].strip() if ln else ''), ln, sorted(props)))
    r['status'] = 'failed' if r['failures'] else 'undecided'
    return r


if __name__ == '__main__':
    # verus.py REPO UNIT OUT: writes the text that is given to the verifier
    u = UNITS[sys.argv[2]]
    open(sys.argv[3], 'w').write(u[1](sys.argv[1], open(os.path.join(ROOT, 'verus', u[0])).read(), sys.argv[2]))
