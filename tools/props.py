"""What each check runs."""
BASE = ['main.cpp', 'ref.cpp', 'gen.cpp', 'interpose.cpp']


def part(name, variant='asan', srcs=(), **kw):
    return dict(name=name, variant=variant, srcs=BASE + list(srcs), **kw)


TRUST = ('The verdict rests on the executions that were run: seeded generation, no exhaustiveness. Trusted: the reference model in '
         'harness/ref.cpp, OpenSSL, libsodium, gcc and its sanitizer runtimes.')
ASAN = 'under AddressSanitizer and UBSan'


def P(technique, note, **kw):
    return dict(technique=technique, note=note, **kw)


PROPS = {
    'C01': P('round-trip oracle over generated messages and configurations ' + ASAN,
             'Every accepted configuration is signed and verified by the library; a refusal or a failing signature is a violation.'),
    'C02': P('differential oracle: tampered signed messages against a reference verifier ' + ASAN,
             'Every tampered message is judged by the library and by the reference; a pass needs the reference to agree.'),
    'C03': P('differential oracle: an independent signer and verifier against the library ' + ASAN,
             'Signatures of the independent signer must pass; on variants the verdict class must be the reference\'s.'),
    'C04': P('output monitor: emitted fields parsed and recomputed by an independent model ' + ASAN,
             'Every tag of every emitted field is compared with the configuration, hash and signature are recomputed.'),
    'C05': P('differential oracle with chunk-controlled streams ' + ASAN,
             'Canonical bytes are compared with the reference, for every chunking, offset and limit tried.'),
    'C06': P('differential and metamorphic oracle ' + ASAN,
             'Canonical fields are compared with the reference, filtered twice and in other layouts.'),
    'C07': P('differential oracle with conservation of bytes ' + ASAN,
             'Fields and body position are compared with the reference splitter, and add up to the message.'),
    'C08': P('differential oracle over grammar-directed and mutated lists ' + ASAN,
             'Acceptance, values, positions and order are compared with the reference grammar.'),
    'C09': P('differential oracle over valid and corrupted signature fields, all getters ' + ASAN,
             'Acceptance and each reported property are compared with the reference reading.'),
    'C10': P('interposed clock with an online expiry oracle ' + ASAN,
             'The monitor owns the clock; the verdict must follow it at each parse, the emitted x= is recomputed.'),
    'C11': P('differential oracle over crafted domains and identities ' + ASAN,
             'Acceptance and reported identity are compared with the reference; nothing outside the domain may be reported.'),
    'C12': P('differential oracle over valid and corrupted key records ' + ASAN,
             'Acceptance, key, restrictions and flags are compared with the reference; verdicts under each record too.'),
    'C13': P('call monitor on the resolver callback and the interposed DNS functions ' + ASAN,
             'Every lookup is recorded: name, type, data pointer, source, outcome class and the key that arrives.'),
    'C14': P('packet oracle with interposed DNS functions and poisoned memory behind the answer ' + ASAN,
             'Exact text for well-formed packets; no over-read and no foreign text for malformed ones.'),
    'C15': P('differential and round-trip oracle over codecs ' + ASAN,
             'Encodings equal the reference, decodings invert them; refusals equal the reference grammar.'),
    'C16': P('constructive oracle: expected text known from the generated parts ' + ASAN,
             'Texts are assembled from parts whose decoding is known, the result must be exactly theirs.'),
    'C17': P('constructive oracle: addresses known from the generated structure ' + ASAN,
             'Fields are assembled from known addresses, the list returned must be exactly theirs; broken ones must be refused.'),
    'C18': P('metamorphic oracle over rewritten header sequences ' + ASAN,
             'A signature must survive exactly when the denoted sequence keeps its bytes.'),
    'C19': P('metamorphic and differential oracle over body edits around the limit ' + ASAN,
             'Edits behind the limit must not matter, edits before it must; the signer\'s limits are recomputed.'),
    'C20': P('metamorphic oracle: transport rewriting per canonicalization pair ' + ASAN,
             'Rewriting a mode tolerates must leave the verdict, rewriting it does not tolerate must break it.'),
    'C21': P('output monitor on hostile configuration and messages ' + ASAN,
             'Acceptance of names equals the grammar; the emitted text must parse into exactly the configured fields and tags.'),
    'C22': P('equivalence oracle over key forms and set/replace histories ' + ASAN,
             'All forms must give one signature; a model of the key held says which key signs or that signing is refused.'),
    'C23': P('sanitizers, valgrind memcheck and interposed crypto bounds on hostile input; libFuzzer in the thorough tier',
             'A report of ASan, UBSan, memcheck, a checked-libstdc++ assertion, a bounds monitor or the CPU watchdog is a violation.'),
    'C24': P('exception-class monitor with a reference for the verdict class ' + ASAN,
             'Every call is wrapped: only the two error types may escape, with the class the reference allows.'),
    'C25': P('work meter: executed edges and bytes handled by libc calls, compared across input sizes',
             'Work for inputs of size n and 4n is counted deterministically; growth above linear is a violation.'),
    'C26': P('ThreadSanitizer with result comparison against single-threaded runs',
             'A reported race or a differing result is a violation. Schedules are those of the runs.'),
    'C27': P('resource meter: allocated bytes, descriptors and key reference counts over repeated operations',
             'Allocated bytes reported by the allocator must not grow with repetition; double frees are ASan\'s.'),
    'C28': P('history oracle: repeated, interleaved and reused objects against fresh ones ' + ASAN,
             'The result of each operation must equal that of a fresh object on the same input.'),
    'C29': P('fault injection at every read and seek of the message stream ' + ASAN, level='fault_enumeration',
             note='For each message each read position (and each repositioning) is made to fail, once or for good.'),
    'C30': P('black-box monitor of the tool: output lines and exit status against a reference ' + ASAN,
             'The instrumented tool is run on generated files; its lines and status must be those of the reference.'),
    'C31': P('fault injection at every allocation and every crypto call ' + ASAN, level='fault_enumeration',
             note='Each crypto call and each (or a sample of the) C++ allocations of an operation is made to fail, once or for good.'),
    'C32': P('metamorphic and reference oracle over messages with many signature fields ' + ASAN,
             'Lists and verdicts are compared with the reference, with the message without the other signatures, and over orders of checking.'),
    'C33': P('model-based monitor of option objects over histories of setters ' + ASAN,
             'Getters and signatures are compared with a model after each call.'),
    'C34': P('model-based monitor over pools of objects being copied, assigned, moved and destroyed ' + ASAN,
             'Each object must show what one alone shows after the same operations; classes that offer no copy have nothing to check.'),
    'C35': P('metamorphic monitor: the same operation in the C locale and in others ' + ASAN,
             'Whatever comes out of an operation must be the same in every locale.'),
    'C36': P('memory and stack meter over sizes of input ' + ASAN,
             'The peak of allocated bytes and the depth of the stack are compared across sizes of bodies and other inputs.'),
    'C37': P('metamorphic monitor: one stream of any kind against a string stream of its own for each message ' + ASAN,
             'Whatever comes out of the message must not depend on the stream it is read from; settings of the stream are compared around each call.'),
    'C38': P('differential monitor over the state of the process around each operation ' + ASAN,
             'Standard streams, files, environment, signals, locale, hidden states of the C library and more are compared.'),
    'C39': P('output monitor: everything that comes out is searched for secret parts of keys ' + ASAN,
             'Fields, explanations, standard streams, system log and the tool\'s output must hold no 12 characters of a private key in any common notation.'),
    'C40': P('differential monitor: the same operations in several builds of the library and in the one with sanitizers',
             'Compilers, optimization, signedness of char and resolver interface vary; whatever comes out must be the same, and no build may crash or hang.'),
    'C41': P('monitor of processes using the library in every stage of their life ' + ASAN,
             'Results while static objects are made and go, in exit handlers, threads and forked children must be those in main, without a report.'),
}
CHECKS = {f'C{i:02d}': [part('main', srcs=[f'p_C{i:02d}.cpp'])] for i in range(1, 25)}
CHECKS['C25'] = [part('main', variant='cov', srcs=['p_C25.cpp', 'covmon.cpp'])]
CHECKS['C23'] += [
    part('memcheck', variant='plain', srcs=['p_C23.cpp'], cases=dict(quick=700, thorough=40000), timeout=1500,
         prefix=['valgrind', '--quiet', '--error-exitcode=98', '--exit-on-first-error=yes', '--leak-check=no', '--undef-value-errors=yes', '--track-origins=no']),
    dict(name='fuzz', variant='fuzz', kind='libfuzzer', srcs=['fuzz.cpp', 'ref.cpp', 'gen.cpp', 'interpose.cpp'], seconds=dict(quick=10, thorough=420),
         tiers=('thorough',), needs=dict(SEEDER=('C23-main', 'asan', BASE + ['p_C23.cpp'], False))),
]
CHECKS['C26'] = [part('main', variant='tsan', srcs=['p_C26.cpp'])]
CHECKS['C27'] = [part('main', srcs=['p_C27.cpp'])]
CHECKS['C28'] = [part('main', srcs=['p_C28.cpp'])]
CHECKS['C29'] = [part('main', srcs=['p_C29.cpp'])]
CHECKS['C31'] = [part('main', srcs=['p_C31.cpp'])]
CHECKS['C33'] = [part('main', srcs=['p_C33.cpp'])]
CHECKS['C34'] = [part('main', srcs=['p_C34.cpp'])]
CHECKS['C35'] = [part('main', srcs=['p_C35.cpp'])]
CHECKS['C36'] = [part('main', srcs=['p_C36.cpp'])]
CHECKS['C37'] = [part('main', srcs=['p_C37.cpp'])]
CHECKS['C38'] = [part('main', srcs=['p_C38.cpp'])]
CHECKS['C32'] = [part('main', srcs=['p_C32.cpp'])]
CHECKS['C30'] = [part('main', srcs=['p_C30.cpp'], needs=dict(TOOL=('dkimtool', 'asan', ['tool_env.cpp'], True)))]
CHECKS['C39'] = [part('main', srcs=['p_C39.cpp'], needs=dict(TOOL=('dkimtool', 'asan', ['tool_env.cpp'], True)))]
WORKER = ['ref.cpp', 'gen.cpp', 'interpose.cpp', 'builds_worker.cpp']
CHECKS['C40'] = [part('main', srcs=['p_C40.cpp'], needs=dict(BUILD_UNSIGNED=('C40-unsigned', 'unsigned', WORKER, False), BUILD_FAST=('C40-fast', 'fast', WORKER, False),
                                                             BUILD_PLAIN=('C40-unopt', 'unopt', WORKER, False)))]
CHECKS['C41'] = [part('main', srcs=['p_C41.cpp'], needs=dict(LIFE=('C41-life', 'asan', ['ref.cpp', 'gen.cpp', 'interpose.cpp', 'life_worker.cpp'], False)))]
