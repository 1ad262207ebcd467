"""The checks: which harness entries decide which property, at which parameters, within which bounds."""
CHECKS = {}
def J(h, entry, *params, **kw): return dict(h=h, entry=entry, params=list(params), **kw)
def check(cid, bounds, jobs, covers=(), assumptions=(), **kw): CHECKS[cid] = dict(bounds=bounds, jobs=jobs, covers=list(covers), assumptions=list(assumptions), **kw)
T = dict(tier='thorough')

check('C01', 'request streams of up to 3 pipelined requests (40-110 bytes) with 1-4 arbitrary bytes in the path, value, body, query, length, method, version or header line; every cut into two reads (into three for four of the streams), four ways of answering, answers at once or late',
      [J('h_conn', 'conn_cut', k, m, 1) for k, m in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 2), (3, 0), (4, 0), (5, 0), (6, 0), (7, 1), (8, 1), (8, 3), (9, 0))] +
      [J('h_conn', 'conn_cut_late', k, m) for k, m in ((0, 0), (1, 1), (2, 3), (8, 0), (8, 3))] +
      [J('h_conn', 'conn_cut', k, 0, 2) for k in (1, 2, 8)],
      ['two requests', 'none delivered', 'closed'])

BASES = range(12)
def parse(pre): return ([J('h_conn', 'conn_parse', k, 0, 0, 3, 3, 0, pre) for k in BASES] + [J('h_conn', 'conn_parse', k, 0, 0, 3, 0, 0, pre) for k in BASES] +
    [J('h_conn', 'conn_parse', k, 0, 0, 2, 2, 1, pre) for k in BASES] + [J('h_conn', 'conn_parse', k, 0, 0, 4, 4, 0, pre, **T) for k in BASES] + [J('h_conn', 'conn_parse', k, 0, 0, 5, 5, 0, pre, **T) for k in (0, 1, 6, 10)])
GROW = [J('h_conn', 'conn_grow', a, b, 1, e) for a, b in ((400, 20000), (400, 0), (5000, 300), (40000, 9)) for e in (0, 1)]
WINDOW = 'twelve request texts covering every form of request line, with 3 arbitrary bytes replacing or inserted at every position (2 with more input arriving meanwhile; thorough: 4 and 5), followed by another request'
check('C02', WINDOW + '; and four sequences of requests of very different sizes, cut anywhere in the second, so that the buffer moves at every moment', parse(0) + GROW, ['delivered twice', '400', '413', 'waiting', 'client closes'], ['request texts whose Content-Length is repeated, signed or padded are not judged'])
check('C03', WINDOW + '; heads of 32764-32772 bytes in four shapes and one to three reads; declared lengths: any 1-3 bytes, and any digits around 2^27, 2^31, 2^32, 2^64 and negative',
      parse(0)[:24] + parse(0)[36:] + [J('h_conn', 'conn_limit', k, p, q) for k in range(4) for p in (1, 2, 3) for q in (0, 1)] + [J('h_conn', 'conn_length', 0, e, n) for e in (0, 1) for n in (1, 2, 3)] + [J('h_conn', 'conn_length', k, e) for e in (0, 1) for k in range(1, 7)] + [J('h_conn', 'conn_length', 0, 1, 4, **T)],
      ['delivered twice', '400', '413', 'waiting', 'head too large', 'head fits', 'waits for body'], ['request texts whose Content-Length is repeated, signed or padded are not judged'])
def after():
    r = []
    for k1 in range(9):
        for m in range(5):
            for k2 in range(8):
                for s1 in range(8):
                    if m < 3 and (s1 >= 6 or (k1 == 5 and s1 == 1)): continue
                    for s2 in (1, 6, k2 % 4): r.append(J('h_conn', 'conn_after', k1, s1, k2, s2, m, **({} if s1 == (k1 + m) % 6 and s2 == (1, 6, k2 % 4)[(k1 + k2 + m) % 3] else T)))
    r += [J('h_conn', 'conn_after', k1, s1, k2, s2, m, **({} if s1 == 8 + (k1 + k2) % 3 and s2 != k2 % 4 or k2 in (0, 2) else T)) for k1 in range(9) for s1 in (8, 9, 10) for k2 in range(8) for m in (3, 4) for s2 in (3, k2 % 4) if (m == 3 or s1 == 9)]
    return r
check('C04', 'pairs of nine first requests (with bodies up to 40000 bytes, 40 headers, 20 parameters) answered in eight ways or left unanswered, unfinished or closed midway, and eight second requests with 1-3 arbitrary bytes: one after the other, pipelined, answered late, and the object reused for another client after completion or after an abort at any byte; and every window of 3 arbitrary bytes in a second request', after() + parse(1)[:24:2] + [dict(j, **T) for j in parse(1)[1:24:2]],
      ['second delivered', 'second not delivered', 'closed after second', 'delivered twice', '400', '413'])

def resp05():
    r = [J('h_resp', 'resp', 1, rq, h, 0, way) for rq in range(8) for h in range(14) for way in range(4) if (rq + h + way) % 2 == 0 and not (h == 3 and way == 1 and rq)]
    r += [J('h_resp', 'resp', 1, (i + j * 3) % 8, i, j, (i * 3 + j) % 4) for i in range(1, 14) for j in range(1, 14) if i != j]
    r += [J('h_resp', 'resp', 1, rq, h, 0, w) for rq in range(5) for h in (0, 1, 2) for w in (4, 5) if not (h and rq % 2)]
    r += [J('h_resp', 'resp', 1, rq, h, 0, way, **T) for rq in range(8) for h in range(14) for way in range(4) if (rq + h + way) % 2 == 1]
    r += [J('h_resp', 'resp', 1, (i + j * 3 + 1 + k) % 8, i, j, (i * 3 + j + 1 + k) % 4, **T) for i in range(1, 14) for j in range(1, 14) if i != j for k in range(7)]
    return r + [J('h_resp', 'resp_length', k) for k in range(6)]
check('C05', 'fourteen kinds of request (two HTTP versions, HEAD, persistence wishes), any status code from -2 to 1002, up to two response headers of thirteen kinds each with 1-4 arbitrary characters in name or value (length, type, connection and transfer-encoding among them), content of 0-3 arbitrary bytes in one call or in pieces, ended, left open or exceeding the length; declared lengths around 2^31, 2^32, 2^63 and negative',
      resp05(), ['length', 'chunked', 'head', 'until close', 'unknown status', 'exact', 'negative', 'beyond 64 bits'], ['the application gives each of the four framing headers at most once, and no line breaks in headers'])
def resp06():
    r = [J('h_resp', 'resp', 2, rq, h, 0, way) for rq in (8, 9, 10) for h in (0, 2, 4, 5, 6, 7, 8, 11) for way in range(4) if not (h == 2 and way == 1)] + [J('h_resp', 'resp', 2, rq, 0, 0, way) for rq in (11, 13) for way in range(4)]
    r += [J('h_resp', 'resp', 2, rq, h, 0, way) for rq in (0, 1, 2, 3, 4, 5, 6, 7, 12) for h in (0, 2, 5, 6, 7, 11, 13) for way in range(4)]
    r += [J('h_resp', 'resp', 2, (i + j * 3) % 8, i, j, (i * 3 + j) % 4) for i in range(1, 14) for j in range(1, 14) if i != j and (i + j) % 2]
    r += [J('h_resp', 'resp', 2, (i + j * 3 + k) % 8, i, j, (i * 3 + j + k) % 4, **T) for i in range(1, 14) for j in range(1, 14) if i != j for k in range(5)]
    return r + [J('h_resp', 'resp', 2, rq, h, 0, way, **T) for rq in (11, 13) for h in (2, 5, 7, 11, 13) for way in range(4)]
check('C06', 'fourteen kinds of request with up to 5 arbitrary characters in the version, method, Connection name or value; up to two response headers of thirteen kinds with arbitrary characters; five ways of writing the content; a device that drains at its own pace', resp06(),
      ['announces keep-alive', 'announces close'], ['for a HEAD response without a known length either choice is accepted, if announced'])
LIFE = [J('h_resp', 'life', a, b, c, 3, (a + b + c) % 2, -1) for a in (0, 1, 2, 3, 4, 7, 8) for b in (0, 1, 2, 3, 5, 6) for c in range(4)]
check('C07', 'every sequence of 3 (from fourteen steps: five kinds of input, every response call, close, losing the peer, draining), for each of seven reactions inside requestReady, six inside requestCompleted and four inside closed, on a device that drains at once or later; every sequence of 4 without reactions and with answers from requestReady; losing a socket in every notification and while flushing',
      LIFE + [J('h_resp', 'life', a, 0, 0, 4, s, -1) for a in (0, 1) for s in (0, 1)] + [J('h_resp', 'life_socket', h) for h in range(3)] + [J('h_resp', 'life', a, b, 0, 4, (a + b) % 2, -1, **T) for a in (0, 1, 2, 3, 4, 7, 8) for b in range(7)] + [J('h_resp', 'life', a, b, 0, 5, 1, s, **T) for a in (0, 1, 7) for b in (0, 1) for s in range(15)],
      ['closed', 'completed', 'two requests'])
check('C08', 'the Expect value and name with 1-3 arbitrary characters at every position, or extended; seven declared body lengths (none, 0, 1, 3, negative, too large, not a number), both versions, and six ways for head, body and neighbouring requests to arrive, every cut in two included',
      [J('h_conn', 'conn_expect', 0, 1, l, a, v) for l in range(7) for a in range(6) for v in (0, 1)] + [J('h_conn', 'conn_expect', k, w, 2, 1, 0) for k, w in ((0, 2), (0, 3), (1, 1), (1, 2), (2, 2), (2, 3), (3, 1), (4, 1))] + [J('h_conn', 'conn_expect', k, w, l, a, 0, **T) for k, w in ((0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (2, 4)) for l in (2, 6) for a in range(6)],
      ['continue', 'no continue'])
check('C09', 'query strings with 2-4 arbitrary bytes (5 in the thorough tier) in eight settings (alone, between, before and after other parameters, inside an escape, after 20 parameters); lookup by any one- or two-character name and by seven fixed names; overriding any one-character name with any one-character value and by nothing, and any two of seven names in turn',
      [J('h_text', 'text_params', k, n, 0) for k, n in ((0, 0), (0, 1), (0, 3), (0, 4), (1, 3), (2, 3), (3, 3), (4, 2), (5, 2), (6, 2), (7, 1))] + [J('h_text', 'text_params', k, 2, 1) for k in (0, 2, 3, 4)] + [J('h_text', 'text_params', k, 2, 2) for k in (0, 1, 2, 3, 4, 5)] + [J('h_text', 'text_params', k, 2, 3) for k in (0, 1, 2, 3, 4, 5)] + [J('h_text', 'text_params', k, n, 4) for k, n in ((0, 1), (2, 1), (4, 1), (5, 1), (7, 1))] +
      [J('h_text', 'text_params', k, 4, o, **T) for k in range(7) for o in (0, 1, 2, 3)] + [J('h_text', 'text_params', 0, 5, 0, **T)],
      ['several parameters', 'no parameter', 'set'])
check('C10', 'texts of 0-6 arbitrary bytes, and texts of 1020-1027, 2050 and 4100 bytes with 3-4 arbitrary bytes at the end or across the 1024th byte, each in a buffer of exactly its size; requests whose path, query or fragment has 2-3 arbitrary bytes, alone and next to escapes',
      [J('h_text', 'text_decode', n, 0, n) for n in range(6)] + [J('h_text', 'text_decode', n, n - 3, 3) for n in (1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2050, 4100)] + [J('h_text', 'text_decode', n, 1021, 4) for n in (1024, 1026, 1030)] + [J('h_text', 'text_fields', k, n) for k, n in ((0, 3), (1, 2), (2, 3), (3, 2), (4, 3), (5, 2), (6, 2), (7, 2))] +
      [J('h_text', 'text_decode', 6, 0, 6, paths=60000, **T), J('h_text', 'text_decode', 1024, 1018, 6, **T)] + [J('h_text', 'text_fields', k, 3, **T) for k in (1, 3, 5, 6, 7)],
      ['something decoded', 'nothing decoded', 'parameters'])
check('C11', 'every value of int, unsigned, 16-bit and 64-bit types in base 10 and 16 (signed 64-bit base 16 in the thorough tier; quick: 256 values around each power of 16 and the limits); announced response lengths and chunk sizes in the size ranges given for C05 and C13, and chunks of 0-40 bytes and around 255, 4095, 32 767, 65 535 and 1 048 576; every year from 1 to 9999',
      [J('h_text', 'text_number', k, 0, b, 0, p) for k, b in ((0, 32), (2, 32), (3, 64), (4, 32), (6, 32), (7, 64), (8, 32)) for p in (0, 1)] + [J('h_text', 'text_number', 1, 0, 64)] + [J('h_text', 'text_number', 5, v, 8, s) for v in (0, 2**31 - 100, 2**32 - 100, 2**59, 2**60 - 100, 2**63 - 256) for s in (0, 1)] + [J('h_text', 'text_number', 1, v, 8, 1) for v in (0, 2**63 - 255)] +
      [J('h_resp', 'resp_length', k) for k in range(6)] + [J('h_resp', 'resp_size', 1, 0, 0, 40), J('h_resp', 'resp_size', 2, 0, 4090, 4100), J('h_resp', 'resp_size', 2, 0, 32764, 32770), J('h_resp', 'resp_size', 2, 0, 65534, 65538), J('h_resp', 'resp_size', 2, 0, 999999, 1000001)] + [J('h_resp', 'resp_chunks', lo, hi, m, t) for lo, hi, m, t in ((0, 40, 3, 0), (250, 260, 0, 1), (4090, 4100, 17, 0), (32764, 32770, 40000, 0), (65534, 65538, 1, 1), (1048574, 1048578, 100000, 0))] + [J('h_text', 'text_date', 0, a, b, 3, 1) for a, b in ((1, 99), (100, 999), (1000, 3999), (4000, 9999))] + [J('h_text', 'text_number', 5, 0, 64, 0, **T)],
      ['number', 'exact', 'date', 'chunked'])
check('C12', 'collections of up to 5 headers with 1-4 arbitrary bytes in names or values, looked up by names of 0-3 arbitrary bytes or four fixed names with values of 0-1 arbitrary bytes or fixed; names of up to 5 bytes against each other and against literals; header texts of up to 7 arbitrary bytes, alone and after "A: " and "Host:"; joining collections of up to 5 and 3 headers, themselves included, with and without reserved room',
      [J('h_text', 'text_headers', k, n, m, v) for k, n, m, v in ((0, 1, 1, -1), (0, 2, 2, -1), (0, 2, 2, 1), (0, 3, 3, 3), (0, 2, -1, -1), (0, 2, -1, 3), (1, 1, 1, 1), (1, 2, 2, 1), (1, 0, 0, 0), (2, 2, -2, 1), (2, 3, -2, 1), (2, 1, -3, 1), (3, 0, 1, 1), (3, 0, 0, 0), (4, 1, 1, 1), (4, 0, 0, 1), (4, 1, -4, 1), (2, 2, -1, -1))] + [J('h_text', 'text_equal', n, m) for n, m in ((0, 0), (1, 1), (2, 2), (4, 4), (5, 5), (3, 4), (0, 1))] + [J('h_text', 'text_raw', k) for k in range(9)] +
      [J('h_text', 'text_join', k, n, m, r) for k in range(9) for n, m in ((0, 0), (3, 2), (2, 0), (0, 3), (5, 1)) for r in (0, 1)] + [J('h_text', 'text_headers', 1, 3, 3, 2, **T), J('h_text', 'text_headers', 0, 4, 4, 3, **T), J('h_text', 'text_equal', 6, 6, **T)],
      ['absent', 'found', 'found many', 'test true', 'equal', 'different', 'colon', 'no colon', 'joined'])
WRITER = [J('h_client', 'client_size', k, p, lo, hi) for k in range(6) for p in range(5) for lo, hi in (((0, 40), (4085, 4105)) if k == 0 else ((0, 30), (440, 480)) if k == 2 else ((0, 40), (4030, 4100), (8150, 8200)))]
check('C13', 'every sequence of 3 of nine ways to append (4 in the thorough tier) with 0-2 arbitrary bytes, to a response buffer with 0, 16, 64 or 200 bytes reserved and 0-200 used; responses whose header, status line, body or chunk has every size in ranges around the buffer limits (0-60, 930-1060, 2020-2070, 3980-4110, 8100-8200, 16370-16400), after four kinds of earlier response on the connection; client requests whose body, header value, header count, method or path has every size in such ranges, after five kinds of earlier request',
      [J('h_text', 'text_append', r, f, 3, n) for r, f, n in ((0, 0, 2), (16, 5, 1), (64, 50, 0), (200, 190, 3), (200, 200, 2))] + [J('h_resp', 'resp_size', k, p, lo, hi) for k, rs in ((0, ((0, 60), (930, 1020), (2020, 2070), (3980, 4110), (8100, 8200))), (1, ((0, 70),)), (2, ((0, 20), (1010, 1040), (4080, 4100), (16370, 16400))), (3, ((1, 40), (960, 1040))), (4, ((1, 30), (330, 500)))) for lo, hi in rs for p in range(4)] +
      WRITER + [J('h_text', 'text_append', r, f, 4, n, **T) for r, f, n in ((0, 0, 2), (16, 5, 1), (64, 50, 0))],
      ['appended', 'written'])
TREE = 'a tree of 32 entries with files inside and outside the folder, sibling folders whose names start alike, and twelve symbolic links (to files and folders, inside and outside, through each other)'
check('C14', TREE + '; ten configured folders (one a link, one not there, one a file, one empty), thirty-five request paths with dot segments, escapes and links, 1-2 arbitrary characters (3-4 in the thorough tier) replacing or inserted at every position',
      [J('h_file', 'file_path', f, k, 2, 0) for f in (0, 3) for k in range(35)] + [J('h_file', 'file_path', f, k, n, i) for f in (1, 2, 4, 5, 6, 7, 8, 9) for k in range(35) for n, i in (((1, 1),) if f != 4 or k % 2 else ((2, 0),))] + [J('h_file', 'file_path', 0, k, 2, 1) for k in range(35)] +
      [J('h_file', 'file_path', f, k, 3, i, paths=60000, time=200, **T) for f in (0, 4) for k in range(35) for i in (0, 1)] + [J('h_file', 'file_path', 0, k, 4, 1, paths=200000, time=300, steps=20000000000, **T) for k in (0, 2, 3, 5, 10)],
      ['served', 'outside', 'nothing there'], ['decoded paths are ASCII and do not climb above the scratch tree; the tree does not change while a request is handled'])
SENDS = [J('h_file', 'file_send', 512, sz, r, 3, e, f) for sz in (0, 1, 511, 512, 513, 1024, 1300) for r in range(8) for e in (0, 1) for f in (-1, 9) if not (e and (f == 9 or sz < 512))]
check('C15', 'files of 0 to 1300 bytes around a buffer of 512, and of 40 around smaller ones, with arbitrary bytes at start, middle and end; eight requests (GET, HEAD, POST, both versions, persistent or not), every sequence of 3 steps (5 in the thorough tier): draining by 1, 356 or all, another request (also arriving with the first), events, closing; cut at several points with the connection object serving the next client; matching and other entity tags with 3 arbitrary characters',
      SENDS + [J('h_file', 'file_send', b, 700, r, 3, 0, -1) for b in (0, 100, 512, 699, 700, 701, 4096) for r in (0, 1)] + [J('h_file', 'file_reuse', 512, sz, r, h, e) for sz in (513, 1800) for r in (0, 1, 2) for h in range(3) for e in (0, 1)] + [J('h_file', 'file_gone', 512, 1800, w) for w in (0, 1)] + [J('h_file', 'file_tag', n, h % 2, h, 3) for n in (0, 5, 12, 13) for h in range(5)] + [J('h_file', 'file_tag', n, 1 - h % 2, h, 2) for n in (0, 15, 40) for h in range(5)] + [J('h_file', 'file_tag', n, 0, h, 1) for n, h in ((600, 1), (1500, 0), (5000, 1), (70000, 1))] +
      [J('h_file', 'file_send', 512, sz, r, 5, 0, f, paths=100000, time=200, steps=20000000000, **T) for sz in (512, 513, 1300) for r in range(8) for f in (-1, 9)],
      ['cut', 'next response', 'sent in pieces', 'sent at once', 'head', 'reused', 'changed', 'gone', 'handler gone', 'not modified', 'modified'], ['the digest behind the entity tag is stood in for by an injective function', 'the file does not change during a transfer; unreadable files (403) are not modelled'])
check('C16', 'stacks of 3 children of every one of seven kinds, nested or not (4 in the thorough tier); the fixed handler with any status from 100 to 520 and two arbitrary bytes of content, changed afterwards; the 404 handler with three arbitrary bytes in the path; function handlers with and without a function, replaced between requests',
      [J('h_handler', 'handler_stack', 3, a) for a in (-1, 0, 1, 2)] + [J('h_handler', 'handler_stack', 4, 2)] + [J('h_handler', 'handler_one', k, n) for k, n in ((0, 0), (0, 2), (1, 3), (1, 1), (2, 0), (3, 0))] + [J('h_handler', 'handler_stack', 4, a, **T) for a in (-1, 0, 1, 3)] + [J('h_handler', 'handler_one', k, n, **T) for k, n in ((0, 3), (1, 4))],
      ['taken', 'not taken', 'changed', '404', 'function'])
check('C17', 'every sequence of 4 steps (5 in the thorough tier) out of thirteen on two connections sharing a log, in both modes: requests with two arbitrary characters in the URI (or raw UTF-8 with two arbitrary bytes), partial and pipelined input, three kinds of answer, closing, destroying a connection or the log, another connection at the same address; three pipelined requests with arbitrary bytes in their URIs',
      [J('h_handler', 'log_steps', t, 4, 2, s) for t in (0, 1) for s in range(13)] + [J('h_handler', 'log_steps', t, 3, -1, -1) for t in (0, 1)] + [J('h_handler', 'log_pipeline', t) for t in (0, 1)] + [J('h_handler', 'log_steps', t, 5, 1, s, paths=600000, time=300, steps=20000000000, **T) for t in (0, 1) for s in (0, 1, 7, 10)],
      ['several lines', 'no line', 'pipelined'], ['the handler asks the log about every request on a connection, or about none'])
ROUTES = [J('h_router', 'router', t, p, n, i, (t + p + n) % 3, 3 if (t + p + i) % 2 else 0, (t + p) % 4) for t in range(9) for p in range(6) for n, i in ((2, 0), (1, 1))] + [J('h_router', 'router', t, p, 1, (p + a) % 2, q, a, (t + p + q + a) % 5) for t in (0, 1, 7) for p in range(6) for q in (p,) for a in range(8)]
DEEPR = [J('h_router', 'router', t, p, 3, i, (t + p) % 6, a, (t + p) % 5, paths=200000, time=200, steps=10000000000, **T) for t in range(9) for p in range(6) for i, a in ((0, 3), (1, 7))]
ROUTING = 'nine tables of up to 5 routes (words, splats, literal text with every regular expression character, several per pattern, in any order), six paths per table with 1-2 arbitrary bytes (3 in the thorough tier) replacing or inserted at every position, six query strings, methods fixed or of 3-4 arbitrary characters, _method overrides of 3 arbitrary characters, every combination of the three settings'
check('C18', ROUTING + '; ten kinds of route target', ROUTES + [J('h_router', 'router_kinds', k) for k in range(10)] + DEEPR, ['matched', 'passed on', '404', '405', 'invoked', 'no match'], ['paths whose decoded text is ASCII'])
check('C19', ROUTING, ROUTES + DEEPR, ['bound'], ['paths whose decoded text is ASCII'])
check('C20', 'upstream responses with seventeen statuses, six sets of headers with arbitrary values, repeated cookies, bodies of up to 3 arbitrary bytes (6 in the thorough tier), or of 20 000 to 70 000 arriving at once or in three large pieces, delimited by length, chunks or the end of the connection; five kinds of client (HTTP/1.1, closing, 1.0, 1.0 kept alive, HEAD); every cut of the body into reads; completed, failed with nine errors, reply destroyed, client closed, client object destroyed, handler destroyed, at every moment; then late data, and a next exchange on the same connection at once or later; two clients with every interleaving of their replies',
      [J('h_proxy', 'proxy_relay', f, w, si, hk, 3 if o == 0 else 2, o) for f in range(3) for w in range(5) for o in range(6) for si, hk in ([(0, 3), (1, 6), (2, 1), (3, 2)] if o < 2 else [(0, 3), (1, 0)])] + [J('h_proxy', 'proxy_relay', f, w, si, 1, n, 0) for f in range(3) for w in (0, 2, 4) for si in range(17) for n in (0, 1)] + [J('h_proxy', 'proxy_relay', f, w, 0, 0, 0, o) for f in range(3) for w in range(5) for o in range(6)] + [J('h_proxy', 'proxy_two', 1, f) for f in range(3)] + [J('h_proxy', 'proxy_large', f, w, n, o) for f in range(3) for w, n in ((0, 20000), (3, 70000), (2, 40000)) for o in range(4)] +
      [J('h_proxy', 'proxy_relay', f, w, si, hk, 6 if o == 0 else 4, o, paths=200000, time=400, steps=40000000000, **T) for f in range(3) for w in range(5) for o in range(6) for si in (0, 1, 5) for hk in range(8)] + [J('h_proxy', 'proxy_two', n, f, paths=200000, time=800, steps=40000000000, **T) for f in range(3) for n in (2, 3, 4)],
      ['large', 'chunked', 'until close', 'length', '503', 'cut short', 'already complete', 'client gone', 'second exchange', 'both answered'], ['Qt\'s network stack is stood in for by a reply that reports what QNetworkAccessManager reports: an error for each status of 400 or more, repeated cookies joined by line feeds, errors for responses cut short; statuses the library has no reason phrase for are outside'])
check('C21', 'targets with up to 2 arbitrary characters in path, query and fragment (3 in the thorough tier), and with up to 2 arbitrary escapes; methods of up to 3 arbitrary letters and digits and eight well-known ones; arbitrary header names and values; repeated headers in every letter case; bodies of arbitrary bytes, read by the network stack before and after the client is gone; four configured addresses and none, and every sequence of three among nine that differ in one part',
      [J('h_proxy', 'proxy_request', 0, n, k) for n in (1, 2) for k in range(6)] + [J('h_proxy', 'proxy_request', 8, n, k) for n in (1, 2) for k in range(5)] + [J('h_proxy', 'proxy_request', 1, n, 0) for n in (1, 3)] + [J('h_proxy', 'proxy_request', 2, n, k) for n in (1, 2) for k in range(3)] + [J('h_proxy', 'proxy_request', 3, n, k) for n in range(1, 5) for k in range(4)] + [J('h_proxy', 'proxy_request', 4, n, k) for n in (0, 1, 4, 9) for k in (0, 1)] + [J('h_proxy', 'proxy_request', 5, 0, 0)] + [J('h_proxy', 'proxy_target', k, v) for k in range(9) for v in (0, 1)] + [J('h_proxy', 'proxy_request', 6, 0, k) for k in range(4)] + [J('h_proxy', 'proxy_request', 7, n, k) for n in (0, 2) for k in range(8)] +
      [J('h_proxy', 'proxy_request', 0, 3, k, paths=200000, time=800, steps=40000000000, **T) for k in range(6)] + [J('h_proxy', 'proxy_request', 2, 4, k, paths=200000, time=800, steps=40000000000, **T) for k in range(3)],
      ['forwarded', 'addressed', 'left alone', 'repeated header', 'body', 'no target'], ['targets in origin form; what Qt\'s network stack adds below the request it is given (Connection, User-Agent, Accept-Language, the escape of a plus sign) is outside; escapes compare equal however they are spelled'])
check('C22', 'requests of eighteen kinds (paths, queries and escapes with 1-2 arbitrary characters, no path, ports around every power of ten and 80, arbitrary method letters, header names and values, header values with any bytes, bodies of 0-3 and 4094-4098 bytes, headers and bodies of 9000-20000) issued in three ways, alone and after each other kind that completed, was aborted, was cut off, announced its end, failed or idled; the writer alone at every size of body, header and path around its buffer limits',
      [J('h_client', 'client_request', k, -1, w, 0) for k in range(18) for w in range(3)] + [J('h_client', 'client_request', k1, k2, (k1 + k2) % 3, e) for k1 in range(18) for k2 in range(18) for e in range(7) if (k1 * 5 + k2 * 3 + e) % 7 in (0, 3)] + WRITER[::3] +
      [J('h_client', 'client_request', k1, k2, w, e, **T) for k1 in range(18) for k2 in range(18) for e in range(7) for w in range(3)] + [dict(j, **T) for j in WRITER],
      ['first', 'reused', 'reconnected', 'written'], ['method, header names and values contain no line breaks; host names are lower-case ASCII'])
LARGE = [J('h_client', 'client_large', n, f, 0, u, 1) for n in (1100, 5000, 70000, 140000) for f in range(3) for u in (0, 1)] + [J('h_client', 'client_large', n, f, b, 1, 1) for n, b in ((3000, 1000), (70000, 5000)) for f in range(3)] + [J('h_client', 'client_large', n, f, 0, (n + f) % 2, 2, **T) for n in (1100, 5000, 140000) for f in range(3)]
check('C23', 'twenty-four kinds of well-formed response (any status, reason, header name, value and body bytes; lengths of 0-12, chunks of 1-17 with extensions and trailers, until the end of the connection, interim responses, HEAD, 204, 304, upgrade offers, folded and padded values, names in any letter case), every cut into two reads (three in the thorough tier), cut short at every byte, with read buffer limits; bodies of 1100 to 140000 bytes with three arbitrary bytes, cut in the body around powers of two, twice on one client; twelve kinds of malformed response; six responses with 2 arbitrary bytes replaced or 1 inserted at every position (3 and 2 in the thorough tier)',
      [J('h_client', 'client_read', k, c, t, 0, u) for k in range(24) for c, t, u in ((1, 0, 0), (0 if k in (2, 14) else 1, 1, 1))] + [J('h_client', 'client_read', k, 0, 0, n, u) for k in range(24) for n, u in ((1, 1), (7, 1), (64, 0))] + [J('h_client', 'client_bad', k, c) for k in range(12) for c in (0, 1)] + LARGE + [J('h_client', 'client_window', k, w, i) for k in range(6) for w, i in ((2, 0), (1, 1))] +
      [J('h_client', 'client_read', k, 2, t, 0, u, paths=60000, time=200, **T) for k in range(24) for t, u in ((0, 1), (1, 0))] + [J('h_client', 'client_bad', k, 2, paths=60000, time=200, **T) for k in range(12)] + [J('h_client', 'client_window', k, w, i, paths=200000, time=300, steps=20000000000, **T) for k in range(6) for w, i in ((3, 0), (2, 1))],
      ['complete', 'cut short', 'malformed', 'well-formed', 'incomplete', 'until close', 'large'], ['texts with repeated, signed or padded lengths or with both a length and chunks are not judged'])
check('C24', 'a client with eight kinds of answer (length, chunks, until close, HEAD, several interim responses, malformed, redirect, empty), eight actions (nothing, abort, request, abort and request, consume, follow the redirect, request elsewhere, two requests) in each of three notifications, then every sequence of 3 steps (4 in the thorough tier) out of eight: a few bytes, the rest of the head, everything, remote close, network error, abort, another request, unasked bytes; then the connection ends',
      [J('h_client', 'client_life', a, n, w, 3, -1) for a in range(8) for n in (1, 2, 3) for w in range(1, 8)] + [J('h_client', 'client_life', a, 0, 0, 3, -1) for a in range(8)] +
      [J('h_client', 'client_life', a, n, w, 4, -1, paths=400000, time=300, steps=20000000000, **T) for a in range(8) for n in (1, 2, 3) for w in range(1, 8)] + [J('h_client', 'client_life', a, 0, 0, 4, f, paths=400000, time=300, steps=20000000000, **T) for a in range(8) for f in range(8)],
      ['succeeded', 'failed', 'carried out later', 'ended'], ['the application waits for one notification before reacting in it; the client object outlives the request'])
check('C25', 'ten kinds of first response ended in nine ways (completed, aborted, cut off or failed at every byte, aborted in each notification, followed from a notification, another host), then each of twenty-four kinds of second response with arbitrary bytes, whole or cut anywhere',
      [J('h_client', 'client_after', k1, how, k2, 0) for k1 in range(10) for how in range(9) for k2 in range(24) if (k1 + how * 3 + k2) % 6 == 0] + [J('h_client', 'client_after', k1, 0, k2, 1) for k1 in range(10) for k2 in range(24) if (k1 + k2) % 5 == 0] +
      [J('h_client', 'client_after', k1, how, k2, c, paths=60000, time=100, **T) for k1 in range(10) for how in range(9) for k2 in range(24) for c in ((0, 1) if how in (0, 1, 8) else (0,))],
      ['second'])
check('C26', 'every three-digit status from 200 to 599 but 204; every letter-case of the header name, and every other name of 8 letters; absolute, host-relative, path-relative, query-only and dotted locations with 1-2 arbitrary characters; requests with arbitrary methods, headers and bodies; current addresses with and without path and port',
      [J('h_client', 'client_redirect', k) for k in range(15)], ['followed', 'no redirect'], ['locations are ASCII without user information'])
check('C27', 'streams of up to 4 arbitrary bytes (decoded, expanding 1-33000 times, corrupt at any byte, not ended, trailing bytes, other encodings and letter cases), in length-delimited, chunked and until-close bodies, every cut into two reads (three in the thorough tier), consumed as they come or at the end',
      [J('h_client', 'client_gzip', f, n, 1, k, fr, (f + k + fr) % 2) for f, n in ((1, 3), (700, 2), (3000, 2)) for k in range(8) for fr in range(3)] + [J('h_client', 'client_gzip', f, n, 1, 1, fr, fr % 2) for f, n in ((20000, 3), (33000, 2), (32768, 3)) for fr in range(3)] + [J('h_client', 'client_gzip', f, 2, 2, k, fr, (f + k + fr) % 2) for f in (1, 3000) for k in (0, 1) for fr in range(3)] +
      [J('h_client', 'client_gzip', f, n, 2, k, fr, c, paths=100000, time=200, **T) for f, n in ((1, 4), (600, 3), (1024, 3), (3000, 3)) for k in range(8) for fr in range(3) for c in (0, 1)],
      ['decoded', 'corrupt', 'untouched'], ['zlib itself is stood in for by a small decompressor with its calling contract: any expansion, any error, partial output when the buffer is full'])
check('C28', 'three servers (TCP, TLS, local); the one free pooled object after 11 kinds of earlier client (partial, malformed, too large, pipelined, many headers, 70 000 bytes), answered in ten ways, ended at every byte by either side, then 8 kinds of next client cut anywhere, against a new object, its socket at another address or at that of the previous one; histories of 3 (thorough: 4) steps - accept, refused descriptor, request whole or in pieces or malformed, answer, leave, close - starting with 0, 3 or 26 connections, with one of eight actions from within each notification, ended quietly or at once; 27 to 29 clients leaving in four orders by three ways, with an action from within any one of the notifications',
      [J('h_server', 'server_reuse', kind, pk, (pk * 3 + kind) % 10, pk % 3, (pk + kind) % 8, (pk + 2 * kind) % 10, 0) for kind in range(3) for pk in range(11)] + [J('h_server', 'server_reuse', pk % 3, pk, w, e, (pk + w + e) % 8, (pk + w) % 9, 0) for pk in (0, 1, 5, 7, 9) for w in range(10) for e in range(3)] +
      [J('h_server', 'server_address', pk % 2, pk, (pk * 3) % 10, e, (pk + e) % 8, (pk + 2 * e) % 9) for pk in range(11) for e in range(3)] +
      [J('h_server', 'server_history', kind, (0, 3, 26)[(w + a + d) % 3], d, w, a, 3) for kind in range(3) for d in (0, 1) for w in range(4) for a in range(1, 9) if (w or a == 1) and (w + a + kind + d) % 2 == 0] + [J('h_server', 'server_many', a % 3, 27 + a % 3, w, a) for w in (1, 2, 3) for a in range(1, 9)] +
      [J('h_server', 'server_history', kind, (0, 3)[(w + a + d) % 2], d, w, a, 4, steps=40000000000, time=1000, **T) for kind in range(3) for d in (0, 1) for w in range(4) for a in range(1, 9) if w or a == 1] + [J('h_server', 'server_reuse', (pk + nk) % 3, pk, w, e, nk, (w + nk) % 10, 1, steps=40000000000, time=1000, **T) for pk in range(11) for nk in range(8) for w in (0, 1, 4, 9) for e in (0, 2)],
      ['same object', 'request served', 'request refused', 'reused', 'address used again', 'request', 'quiet end', 'sudden end'], ['accepting is triggered by the harness in place of the listening socket', 'an object put back while its own notifications run may be taken again from within them, as waitForNewConnection allows'])
check('C29', 'response parser: twelve texts leading through its states (lengths, chunks, trailers, folding, bare line feeds, upgrade, interim, until close, closed connection, extreme numbers), 2 arbitrary bytes (3 in the thorough tier) replaced or inserted at every position, joined, in two pieces cut near them, and byte by byte, then the end of the connection; pausing, clearing and injecting in every callback; heads around the 80 KiB limit; request parser: eight texts treated the same way; every text in a buffer of exactly its size',
      [J('h_parser', 'parser_response', k, n, i, 0, 999, tail, b) for k in range(12) for n, i, tail, b in ((2, 0, 999, 0), (2, 1, 2, 0), (1, 1, 999, 1))] + [J('h_parser', 'parser_callbacks', k, w, 1, 0, 999) for k in range(12) for w in (1, 2, 3, 4)] + [J('h_parser', 'parser_response', 12, 1, 0, 81900, 81930, 999, 0)] +
      [J('h_parser', 'parser_request', k, n, i, 0, 999, tail, b) for k in range(8) for n, i, tail, b in ((2, 0, 999, 0), (2, 1, 2, 0), (1, 1, 999, 1))] +
      [J('h_parser', 'parser_response', k, 3, i, 0, 999, t, b, steps=40000000000, time=1000, **T) for k in range(12) for i, t, b in ((0, 999, 0), (1, 3, 1))] + [J('h_parser', 'parser_callbacks', k, w, 2, 0, 999, steps=40000000000, time=1000, **T) for k in range(12) for w in (1, 2, 3, 4)] + [J('h_parser', 'parser_request', k, 3, i, 0, 999, t, b, steps=40000000000, time=1000, **T) for k in range(8) for i, t, b in ((0, 999, 0), (1, 3, 1))],
      ['accepted', 'error', 'ended by end of connection', 'clean end', 'acted', 'bad request', 'head ended', 'head unfinished'], ['the response parser is used for responses only, as the client does; after an error only the error is compared, as what was collected before depends on the pieces'])
NK = range(31)
check('C30', 'one reply: 31 kinds of response (all framings, interim, repeated, empty and redirecting headers, every status), up to 2 (thorough: 2 for all) cuts anywhere, six ways of reading with every pattern of read sizes 1 to 3, six operations, ended whole, by the server, by a network error or by abort at every byte; malformed in one byte; 70 000 bytes in three framings with large reads; histories of 5 (thorough: 6) operations over three servers - new request, deliver in part or whole, close, fail, abort, delete - with an action from within each notification, then the manager destroyed',
      [J('h_nam', 'nam_reply', k, 1, 5 if k == 2 else k % 6, (0, 2, 3, 4, 5)[k % 5], 0) for k in NK] + [J('h_nam', 'nam_reply', k, 0, (k + e) % 6, 0, e) for k in NK for e in (1, 2, 3)] + [J('h_nam', 'nam_bad', b, w) for b in range(4) for w in (0, 2)] + [J('h_nam', 'nam_large', n, f, p) for f in range(3) for n, p in ((70000, 5000), (17000, 100000))] +
      [J('h_nam', 'nam_life', k, w, a, (k + w + a) % 4, 3, -1) for k in range(5) for w in range(5) for a in range(1, 7) if w or a == 1] +
      [J('h_nam', 'nam_reply', k, 2, w, 0, 0, **T) for k in NK for w in (0, 1, 3, 4)] + [J('h_nam', 'nam_reply', k, 1, w, 0, e, **T) for k in NK for w in (1, 2) for e in (1, 2, 3)] + [J('h_nam', 'nam_life', k, w, a, (k + w + a) % 4, 4, -1, steps=40000000000, time=1000, **T) for k in range(5) for w in range(5) for a in range(1, 7) if w or a == 1],
      ['succeeded', 'failed', 'redirection', 'malformed', 'large', 'client used again', 'history', 'mirrored'], ['cookies are left to the application\'s jar', 'a name that differs in case only is one header, its values joined', 'host names in lower case'])
check('C31', 'every 32-bit status code; file names of up to 5 arbitrary Latin-1 characters, and each known ending with up to 4 characters replaced, appended or prefixed; every year from 1 to 9999, every day of four years, every hour, minute and second, and 29 zone offsets at every hour of eight dates around year and month ends',
      [J('h_text', 'text_status')] + [J('h_text', 'text_mime', 0, n) for n in range(6)] + [J('h_text', 'text_mime', 1, n, e) for e in range(8) for n in (2, 4)] + [J('h_text', 'text_mime', 2, n, e) for e in range(8) for n in range(6)] + [J('h_text', 'text_mime', 3, n, e) for e in range(8) for n in (0, 1, 3)] +
      [J('h_text', 'text_date', 0, a, b, 1, 1) for a, b in ((1, 99), (100, 999), (1000, 3999), (4000, 6999), (7000, 9999))] + [J('h_text', 'text_date', 0, 1990, 2110, m, d) for m, d in ((2, 28), (12, 31))] + [J('h_text', 'text_date', 0, y, y, 0, 0) for y in (1900, 2000, 2012, 2013)] + [J('h_text', 'text_date', 1, w, v) for w in range(3) for v in (0, 5, 13)] + [J('h_text', 'text_date', 2, i) for i in range(8)] + [J('h_text', 'text_mime', 0, 6, **T), J('h_text', 'text_mime', 0, 7, **T)],
      ['known', 'unknown', 'date', 'text/html', 'image/jpeg', 'image/png', 'image/gif', 'text/css', 'text/javascript', 'text/xml', 'application/octet-stream'], ['years 1 to 9999 (the RFC form has four digits); valid moments'])
check('C33', 'key and certificate from two of each, given by constructor or setters and changed between connections, or left out; three connections, each adopted or not; nothing, plain text or 3 arbitrary bytes received before adoption; eight kinds of client, cut anywhere for the first, against a plain server',
      [J('h_server', 'server_secure', h, e, c, (c + e) % 10) for h in (0, 1) for e in range(3) for c in range(8) if (h + e + c) % 2 == 0] + [J('h_server', 'server_secure', h, e, c, 0) for h in (2, 3, 4, 5) for e, c in ((0, 1), (1, 3))] + [J('h_server', 'server_secure', h, e, c, w, steps=40000000000, time=1000, **T) for h in range(6) for e in (0, 1) for c in range(8) for w in range(9) if h < 2 or w < 2],
      ['secure', 'incomplete', 'served', 'not adopted'], ['the TLS socket is the shim: what matters is what is asked of it and when; the cryptography is Qt\'s and OpenSSL\'s'])
