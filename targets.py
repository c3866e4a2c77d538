"""What the checks build and run."""
import os
ENG = ['wasm', 'interp', 'gen', 'run', 'main', 'profiles', 'special']

def programs(R, V):
    inc = ['-I' + R + '/include', '-I' + R + '/sljit/sljit_src']
    asan = ['-fsanitize=address,bounds,null,object-size,return,unreachable,bool,enum', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    ubs = []
    def lib(flags): return [(R + '/pwart/pwart.c', ['gcc', '-w', '-g'] + flags + inc), (R + '/sljit/sljit_src/sljitLir.c', ['gcc', '-w', '-g'] + flags + inc)]
    cxx = ['g++', '-std=c++17', '-w', '-g', '-ffp-contract=off'] + inc
    eng = lambda fl: [(V + '/engine/%s.cc' % e, cxx + fl) for e in ENG]
    P = {}
    P['wj'] = {'objs': eng(['-O1']) + lib(['-O2']), 'link': ['g++', '-lm', '-lpthread']}
    P['wj_asan'] = {'objs': eng(['-O1'] + asan) + lib(['-O1'] + asan), 'link': ['g++'] + asan + ['-lm', '-lpthread']}
    # engine without its main, for harnesses that run generated programs
    engl = lambda fl: [(V + '/engine/%s.cc' % e, cxx + fl) for e in ENG if e != 'main']
    har = lambda n, fl: [(V + '/harness/%s.cc' % n, cxx + ['-I' + V + '/harness'] + fl)]
    wrap = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'mmap', 'munmap'))]
    def harness(name, src, extra=[], eng_=True, alloc=True, libf=['-O2'], lk=[]):
        a = ['-DHX_ASAN'] + asan
        P[name] = {'objs': har(src, ['-O1']) + (har('hxalloc', ['-O1']) if alloc else []) + (engl(['-O1']) if eng_ else []) + lib(libf) + extra, 'link': ['g++'] + (wrap if alloc else []) + lk + ['-lm', '-lpthread']}
        P[name + '_asan'] = {'objs': har(src, ['-O1'] + a) + (har('hxalloc', ['-O1'] + a) if alloc else []) + (engl(['-O1'] + asan) if eng_ else []) + lib(['-O1'] + asan) + extra, 'link': ['g++'] + asan + (wrap if alloc else []) + lk + ['-lm', '-lpthread']}
    harness('life', 'life')
    harness('ns', 'ns')
    harness('load', 'load')
    harness('blt', 'blt')
    harness('lim', 'lim')
    harness('num', 'num')
    # sweeps over memory and table instructions
    for n, d in (('mem', []), ('bulk', ['-DBULK']), ('tab', ['-DTAB']), ('grow', ['-DGROW']), ('sig', ['-DSIG'])):
        for v, fl, hf in (('', [], []), ('_asan', asan, ['-DHX_ASAN'])):
            P[n + v] = {'objs': har('mem', ['-O1'] + d + hf + fl) + har('hxalloc', ['-O1'] + hf + fl) + [(V + '/engine/wasm.cc', cxx + ['-O1'] + fl)] + lib([fl and '-O1' or '-O2'] + fl), 'link': ['g++'] + fl + wrap + ['-lm', '-lpthread']}
    P['wideb'] = {'objs': har('mem', ['-O1', '-DBULK', '-DWIDEB']) + har('hxalloc', ['-O1']) + [(V + '/engine/wasm.cc', cxx + ['-O1'])] + lib(['-O2']), 'link': ['g++'] + wrap + ['-lm', '-lpthread']}
    tsan = ['-fsanitize=thread']
    P['thr'] = {'objs': har('thr', ['-O1']) + engl(['-O1']) + lib(['-O2']), 'link': ['g++', '-lm', '-lpthread']}
    P['thr_tsan'] = {'objs': har('thr', ['-O1'] + tsan) + engl(['-O1']) + lib(['-O1'] + tsan), 'link': ['g++'] + tsan + ['-lm', '-lpthread']}
    harness('stk', 'stk', eng_=False)
    # long chains of tail calls, deep recursion
    wasmo = lambda fl: [(V + '/engine/wasm.cc', cxx + fl)]
    for n, d in (('tail', []), ('rec', ['-DREC'])):
        for v, fl, hf in (('', [], []), ('_asan', asan, ['-DHX_ASAN'])):
            P[n + v] = {'objs': har('deep', ['-O1'] + d + hf + fl) + har('hxalloc', ['-O1'] + hf + fl) + wasmo(['-O1']) + lib([fl and '-O1' or '-O2'] + fl), 'link': ['g++'] + fl + wrap + ['-lm', '-lpthread']}
    # the code generator alone, with each of its executable allocators
    sl = lambda fl: [(R + '/sljit/sljit_src/sljitLir.c', ['gcc', '-w', '-g'] + fl + inc)]
    for v, d in (('', []), ('_prot', ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1']), ('_wx', ['-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1'])):
        P['exe' + v] = {'objs': har('exe', ['-O1'] + d) + har('hxalloc', ['-O1']) + sl(['-O2'] + d), 'link': ['g++'] + wrap + ['-lpthread']}
    P['exe_thr'] = {'objs': har('exe', ['-O1', '-DEXE_THREADS']) + har('hxalloc', ['-O1']) + sl(['-O2']), 'link': ['g++'] + wrap + ['-lpthread']}
    P['exe_tsan'] = {'objs': har('exe', ['-O1', '-DEXE_THREADS', '-DHX_ASAN'] + tsan) + har('hxalloc', ['-O1', '-DHX_ASAN'] + tsan) + sl(['-O1'] + tsan), 'link': ['g++'] + tsan + wrap + ['-lpthread']}
    # random programs for the code generator
    for n, d in (('lir', []), ('ser', ['-DLIR_SER'])):
        P[n] = {'objs': har('lir', ['-O1'] + d) + har('hxalloc', ['-O1']) + sl(['-O2']), 'link': ['g++'] + wrap + ['-lm', '-lpthread']}
        P[n + '_rel'] = {'objs': har('lir', ['-O1'] + d + ['-DSLJIT_DEBUG=0']) + har('hxalloc', ['-O1']) + sl(['-O2', '-DSLJIT_DEBUG=0']), 'link': ['g++'] + wrap + ['-lm', '-lpthread']}
        P[n + '_asan'] = {'objs': har('lir', ['-O1', '-DHX_ASAN'] + d + asan) + har('hxalloc', ['-O1', '-DHX_ASAN'] + asan) + sl(['-O1'] + asan), 'link': ['g++'] + asan + wrap + ['-lm', '-lpthread']}
    for v, d in (('_prot', ['-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1']), ('_wx', ['-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1'])):
        P['lir' + v] = {'objs': har('lir', ['-O1'] + d) + har('hxalloc', ['-O1']) + sl(['-O2'] + d), 'link': ['g++'] + wrap + ['-lm', '-lpthread']}
    # the regular expression matcher built on it
    rx = lambda fl: [(R + '/sljit/regex_src/regexJIT.c', ['gcc', '-w', '-g'] + fl + inc)] + sl(fl)
    rh = lambda fl: har('rgx', ['-O1', '-I' + R + '/sljit/regex_src'] + fl)
    P['rgx'] = {'objs': rh([]) + har('hxalloc', ['-O1']) + rx(['-O2']), 'link': ['g++'] + wrap + ['-lpthread']}
    P['rgx_rel'] = {'objs': rh(['-DSLJIT_DEBUG=0']) + har('hxalloc', ['-O1']) + rx(['-O2', '-DSLJIT_DEBUG=0']), 'link': ['g++'] + wrap + ['-lpthread']}
    P['rgx_asan'] = {'objs': rh(['-DHX_ASAN'] + asan) + har('hxalloc', ['-O1', '-DHX_ASAN'] + asan) + rx(['-O1'] + asan), 'link': ['g++'] + asan + wrap + ['-lpthread']}
    # the system library: libuv, libffi and WASI modules
    uvw = ['-Wl,' + ','.join('--wrap=uv_' + f for f in ('version', 'dlopen', 'dlsym', 'dlclose', 'thread_create', 'mutex_init', 'mutex_destroy', 'mutex_lock', 'mutex_unlock', 'mutex_trylock', 'cond_init', 'cond_destroy', 'cond_signal', 'cond_wait'))]
    sysl = lambda f, fl: [(R + '/pwart_syslib/%s.c' % f, ['gcc', '-w', '-g'] + fl + inc)]
    wasmo = lambda fl: [(V + '/engine/wasm.cc', cxx + fl)]
    def syslib(name, src, obj, link, defs=[]):
        for v, fl, hf in (('', [], []), ('_asan', asan, ['-DHX_ASAN']), ('_tsan', tsan, ['-DHX_ASAN'])):
            P[name + v] = {'objs': har(src, ['-O1'] + defs + hf + fl) + har('hxalloc', ['-O1'] + hf + fl) + wasmo(['-O1']) + lib([fl and '-O1' or '-O2'] + fl) + [(s, a + [fl and '-O1' or '-O2'] + fl) for s, a in obj], 'link': ['g++'] + fl + wrap + link + ['-lm', '-lpthread']}
    syslib('uv', 'uv', sysl('libuv', []), uvw + ['-luv', '-ldl'])
    syslib('ffi', 'ffi', sysl('libffi', ['-DPWART_SYSLIB_LIBFFI_ENABLED']), ['-Wl,--wrap=ffi_closure_alloc,--wrap=ffi_closure_free', '-lffi'])
    syslib('ffi_off', 'ffi', sysl('libffi', []), ['-lffi'], ['-DFFI_OFF'])
    wi = ['-I' + V + '/harness/wasi']
    syslib('wasi', 'wasi', [(R + '/pwart_syslib/%s.c' % f, ['gcc', '-w', '-g'] + inc + wi + d) for f, d in (('pwart_syslib', ['-DPWART_SYSLIB_LIBFFI_ENABLED']), ('wasiexec', ['-Dmain=wasiexec_main']))],
           ['-Wl,--wrap=uv_os_environ,--wrap=uv_os_free_environ', '-luv', '-lffi', '-ldl'], wi)
    return P

def checks():
    C = {}
    rule = ('Random typed modules (%s emphasis) and host action sequences from the seed; each is run on the real compiled code and on an independent '
            'reference interpreter, and results, host-call arguments, memories, tables, globals, canaries and callee-saved registers are compared. '
            'A case counts as non-trivial if at least one action was compared and it executed at least three instructions in the model; distinct by the hash of the module bytes and configuration.')
    def eng(cid, what, quick, thorough):
        C[cid] = {'level': 'exploration', 'rule': rule % what, 'technique': 'differential runtime monitoring of JIT code against a reference interpreter on generated modules, plus ASan/UBSan runs of the compiler',
                  'note': 'Held on the generated executions only; trusts the reference interpreter (cross-checked against V8) and the x86-64 host.',
                  'assumptions': ['x86-64 System V host', 'programs that trap are outside the property'],
                  'jobs': [{'name': 'differential', 'prog': 'wj', 'args': ['--profile', cid], 'quick': quick, 'thorough': thorough},
                           {'name': 'differential-asan', 'prog': 'wj_asan', 'args': ['--profile', cid], 'quick': 10000, 'thorough': thorough // 40}]}
    eng('C01', 'numeric instructions', 400000, 20000000)
    eng('C02', 'constants and immediates', 400000, 20000000)
    eng('C03', 'pending operands', 300000, 15000000)
    eng('C04', 'control flow', 300000, 15000000)
    eng('C05', 'calls', 250000, 10000000)
    eng('C06', 'tail calls', 250000, 10000000)
    eng('C07', 'locals', 400000, 20000000)
    eng('C08', 'loads and stores', 300000, 10000000)
    eng('C09', 'memory.size and memory.grow', 100000, 3000000)
    eng('C10', 'bulk memory and data segments', 300000, 10000000)
    eng('C11', 'tables and references', 400000, 15000000)
    eng('C12', 'globals and constant expressions', 400000, 20000000)
    eng('C13', 'host boundary', 400000, 15000000)
    eng('C14', 'module linking', 300000, 15000000)
    eng('C17', 'compile configuration', 400000, 15000000)
    for cid in ('C01', 'C04', 'C17'):
        for nm, m in (('oldest-cpu', 63), ('cpu-without-avx', 48)):
            C[cid]['jobs'].append({'name': 'differential-' + nm, 'prog': 'wj', 'args': ['--profile', cid], 'quick': 60000, 'thorough': 4000000, 'env': {'HX_CPU': str(m)}})
    for cid, n, jn, what in (('C05', 'rec', 'recursion', 'Recursions up to 40000 levels deep over rings of functions (random signatures of up to 22 parameters, up to 90 locals, direct, indirect, between modules and through host functions calling back), every parameter, local and pending operand of every level folded into its results after its call returned; a case counts if all its recursions were compared.'),
                             ('C06', 'tail', 'chains', 'Chains of up to 300000 tail calls over rings of functions (random signatures, permuted own parameters, locals, operands pending, direct, indirect, between modules, host functions last); the values after the chain are compared, host functions record the native and runtime stack position of every round, and the runtime stack is marked; a case counts if all its chains were compared.')):
        C[cid]['rule'] += ' ' + what
        C[cid]['jobs'] += [{'name': jn, 'prog': n, 'args': [], 'quick': 100000, 'thorough': 6000000}, {'name': jn + '-asan', 'prog': n + '_asan', 'args': [], 'quick': 4000, 'thorough': 200000}]
    C['C06']['technique'] += ', and stack-use monitors on long chains'
    C['C05']['technique'] += ', and deep recursions against a model'
    C['C01']['rule'] += (' Value sweeps: one instruction per module in up to thirteen operand and consumer forms (parameters, registers, loops over memory, constants on either side, deciding br_if/if/select), each evaluated on hundreds of operand '
                         'pairs around its rounding, overflow and encoding borders; all 136 instructions in turn.')
    C['C01']['jobs'] += [{'name': 'values', 'prog': 'num', 'args': [], 'quick': 600000, 'thorough': 30000000}, {'name': 'values-asan', 'prog': 'num_asan', 'args': [], 'quick': 5000, 'thorough': 200000}]
    C['C02']['rule'] += (' Large modules: up to 80000 imported or 65000 own memories, tables, globals, functions, types, 29000 locals, 20000 nested blocks, branch tables, segments and bodies of up to 65536 entries and functions of 255 parameters, '
                         'with index immediates of every magnitude; every entry an immediate designates is compared with what it holds.')
    C['C02']['jobs'] += [{'name': 'large-modules', 'prog': 'lim', 'args': [], 'quick': 40000, 'thorough': 2000000}, {'name': 'large-modules-asan', 'prog': 'lim_asan', 'args': [], 'quick': 2000, 'thorough': 60000}]
    for cid, n, k, what in (('C09', 'grow', 60000, 'Grow sweeps: one to three memories grown by random amounts (nothing, a few pages, all that is left, more, sizes of 2^31, 2^32 and above; up to the 2 GB limit without maximum and 65536 pages with one; allocations refused), directly, through calls and call_indirect, with operands pending, other memories accessed before and the same memory written, read and measured after it in the same function; every page carries marks that are compared after every grow of any memory, new pages are compared with zero.'),
                            ('C08', 'mem', 100000, 'Access sweeps: single loads and stores in functions with operands in every form (parameters, constants, locals, globals, results of calls and blocks, operands pending, another memory accessed just before), over memories that grow, 64-bit memories and host memories of 4 to 20 GB, offsets and addresses up to 2^34 and the last bytes; the neighbourhood after every store and the whole memories regularly are compared with byte arrays.'),
                            ('C10', 'bulk', 60000, 'Instruction sweeps: single memory.copy, fill, size and grow instructions with operands in every form, within and between up to four memories, overlapping by up to 70 bytes, empty, up to the end, of all lengths to several pages; every byte of every memory is compared after every call. Some copies and fills are 2 to 4 GB long.'),
                            ('C11', 'tab', 100000, 'Instruction sweeps: single table.set, get, copy, fill, size and call_indirect instructions with operands in every form, within and between up to four tables of up to 140000 entries, overlapping, empty, up to the end; every entry of every table is compared after every call.')):
        C[cid]['rule'] += ' ' + what
        C[cid]['jobs'] += [{'name': 'sweeps', 'prog': n, 'args': [], 'quick': k, 'thorough': k * 50}, {'name': 'sweeps-asan', 'prog': n + '_asan', 'args': [], 'quick': 4000, 'thorough': 200000}]
    for cid, k in (('C05', 150000), ('C06', 80000), ('C13', 200000)):
        C[cid]['rule'] += (' Signature sweeps: functions of up to 255 parameters and 20 results of every type mix, called by the host (raw layout and public helpers), and calls, indirect calls and tail calls of wasm and host functions of up to 20 parameters and results '
                           'with operands pending and arguments in every form; every result depends on the parameters by known multipliers and is compared, the arguments host functions saw are compared, nothing below a frame may be written.')
        C[cid]['jobs'] += [{'name': 'signatures', 'prog': 'sig', 'args': [], 'quick': k, 'thorough': k * 40}, {'name': 'signatures-asan', 'prog': 'sig_asan', 'args': [], 'quick': 4000, 'thorough': 200000}]
    API = ['x86-64 System V host', 'the C library and the kernel behave as documented']
    def har(cid, rule, tech, note, jobs, assumptions=None):
        C[cid] = {'level': 'exploration', 'rule': rule, 'technique': tech, 'note': note, 'assumptions': assumptions or API,
                  'jobs': [dict(zip(('name', 'prog', 'quick', 'thorough'), j[:4]), args=[], **(j[4] if len(j) > 4 else {})) for j in jobs]}
    har('C15', 'Random load histories: generated modules damaged in one of 22 known ways (every cut position, header, imports, unsupported features, exceeded limits, segments out of bounds, inconsistent sections) loaded through every load path with good modules in between. '
        'Non-trivial: the history completed and its errors, bystander modules and accounting were compared; distinct by the hash of its attempts.',
        'fault injection into module bytes with monitors on the reported error, bystander modules, heap/mapping accounting and AddressSanitizer on exact-size buffers',
        'Held on the generated defects only; arbitrary invalid modules are outside (the library does not validate).',
        [('histories', 'load', 200000, 10000000), ('histories-asan', 'load_asan', 20000, 1000000)])
    har('C16', 'Random histories of API calls (namespaces, compilers reused and failed, modules loaded every way, functions called, everything freed in random order, and generated programs) with every allocation, mapping and executable byte counted. '
        'Non-trivial: the history completed and its accounting was compared; distinct by the hash of its operation list.',
        'heap, mapping and executable-memory accounting monitors plus AddressSanitizer over random API histories, with a model of every live object',
        'Held on the generated histories only; allocation failure itself is not injected.',
        [('histories', 'life', 150000, 6000000), ('histories-asan', 'life_asan', 15000, 600000)])
    har('C18', 'Random operation histories on namespaces and host modules against a map model, attach/detach events counted. Non-trivial: the history completed with its lookups compared; distinct by the hash of the operation list.',
        'model-based monitoring of namespace operations with attach/detach event counting, plus AddressSanitizer',
        'Held on the generated histories only.',
        [('histories', 'ns', 400000, 20000000), ('histories-asan', 'ns_asan', 20000, 1000000)])
    har('C19', 'Generated functions calling every importable builtin (all of version ... native_memory, load_module, import, files) with arguments in every operand form, zero to many operands pending and live locals, in modules with several 32/64-bit memories, against a byte-level shadow of every memory, file and native buffer; '
        'ref_copy_bytes, ref_string_length and fwrite with byte counts of 2 to 4 GB. '
        'Non-trivial: the function ran and every result, memory and file was compared; distinct by the hash of the operation list.',
        'shadow-state monitors (memories, native buffers, files, namespace) on calls of every builtin, plus heap accounting and AddressSanitizer',
        'Held on the generated calls only; addresses outside what the builtin may access are outside the property.',
        [('builtins', 'blt', 1000000, 30000000), ('builtins-asan', 'blt_asan', 40000, 1500000), ('counts-of-2gb', 'wideb', 100, 4000)])
    TS = {'env': {'TSAN_OPTIONS': 'exitcode=79:halt_on_error=1:second_deadlock_stack=1'}}
    har('C20', 'Two to six threads at once load, compile, run and free generated programs and small modules (damaged ones included), call functions of shared modules (pure ones and ones with a memory region per thread), wrap host functions, look up exports and release unused executable memory, with random yields and delays; '
        'results are compared with the reference interpreter or with the same call made alone. Non-trivial: at least one operation started while another thread was inside one; distinct by the hash of the observed order of operation starts.',
        'ThreadSanitizer on the library, and result monitors on uninstrumented runs, over concurrent workloads with injected delays',
        'Held on the observed schedules only; generated machine code itself is not instrumented by ThreadSanitizer, its interference is seen through results.',
        [('concurrent', 'thr', 12000, 600000), ('concurrent-tsan', 'thr_tsan', 3000, 150000, TS)])
    har('C25', 'Random histories of executable-block allocation, code generation, calls and release (all sizes around block, page and chunk limits; mapping failures injected; by one or several threads; for each of the three allocators), with the content of every live block and function checked, disjointness checked, and every mapping checked after unused memory is released. '
        'Non-trivial: the history completed with all its checks; distinct by the hash of its allocations and releases.',
        'pattern and code-byte monitors on live blocks, interval-disjointness and mapping accounting, ThreadSanitizer on the allocator',
        'Held on the generated histories only.',
        [('histories', 'exe', 60000, 3000000), ('histories-dual-mapping', 'exe_prot', 20000, 1000000), ('histories-wx', 'exe_wx', 20000, 1000000), ('threads', 'exe_thr', 12000, 600000), ('threads-tsan', 'exe_tsan', 1000, 60000, TS)])
    har('C28', 'Random histories on sljit stacks (creation with every size class, grow, shrink, refused requests, allocation failures, release) and runtime stacks with the value helpers, against a byte model of every stack. Non-trivial: the history completed; distinct by the hash of its operations.',
        'byte-level shadow model of every stack, limit and accounting monitors, AddressSanitizer',
        'Held on the generated histories only; POSIX build.',
        [('histories', 'stk', 200000, 10000000), ('histories-asan', 'stk_asan', 30000, 1500000)])
    OLD = lambda m: {'env': {'HX_CPU': str(m)}}
    lir = ('Random programs from the seed over the whole code-generator interface that x86-64 supports (integer and float operations in register, immediate and every memory form including destinations that are part of an address, shifts and double shifts, status flags and everything that consumes them, selects, jumps, loops, jump tables, calls, fast calls, tail calls, '
           'local areas, register pairs, unaligned and pre-aligned memory, atomics, 128/256-bit vectors, patched constants, retargeted jumps, read-only buffers) are generated, executed between guard pages, and registers, float and vector registers, both data buffers, every callback\'s arguments and stack alignment, saved registers, return values and MXCSR are compared with a model of the documented semantics. ')
    har('C24', lir + 'Non-trivial: at least six kinds of operation were used and every comparison was made; distinct by the hash of the program text.',
        'differential runtime monitoring of generated machine code against a model of the documented instruction set, in debug and release builds, with processor features hidden by cpuid faulting, and AddressSanitizer/UBSan on the generator',
        'Held on the generated programs only; x86-64 back end; behaviour documented as undefined or machine dependent is not generated (NaN payloads, out-of-range conversions, flags said to be destroyed).',
        [('programs', 'lir', 600000, 60000000), ('programs-release', 'lir_rel', 200000, 20000000), ('programs-oldest-cpu', 'lir', 150000, 15000000, OLD(63)), ('programs-cpu-without-avx2', 'lir', 80000, 8000000, OLD(32)),
         ('programs-dual-mapping', 'lir_prot', 60000, 6000000), ('programs-wx', 'lir_wx', 60000, 6000000), ('programs-asan', 'lir_asan', 40000, 4000000)])
    har('C26', lir + 'At one to three random points the compiler is serialised, freed and restored, and generation goes on. Truncated and re-signed copies are also offered. Non-trivial: as for C24; distinct by the hash of the program text.',
        'differential runtime monitoring of code generated by a compiler saved and restored at random points, against the same model, with label, jump and constant enumeration compared, and AddressSanitizer on exact-size buffers',
        'Held on the generated programs and save points only; a buffer damaged elsewhere than in its signature, version or length is outside.',
        [('save-points', 'ser', 400000, 40000000), ('save-points-release', 'ser_rel', 150000, 15000000), ('save-points-asan', 'ser_asan', 40000, 4000000)])
    har('C27', 'Random patterns over the whole syntax (literals, escapes, dot, character classes, groups, alternatives, every repetition form, identifiers, anchors, bytes above 127) with every flag combination, matched against subjects derived from the pattern and noise, fed whole or in random chunks that end at an inaccessible page, matches reset, abandoned, reused and interleaved; deliberately malformed patterns, random bytes, refused allocations. '
        'After chunks the result is compared with a reference matcher over the syntax tree, and a match declared finished with the result for the whole subject. Non-trivial: the pattern compiled and every comparison was made; distinct by the hash of pattern, flags and subjects.',
        'differential runtime monitoring of compiled matchers against a syntax-tree reference matcher, guard pages behind every chunk, heap accounting, AddressSanitizer',
        'Held on the generated patterns and subjects only (expansions up to a few hundred states, subjects up to 70 bytes); 8-bit characters.',
        [('patterns', 'rgx', 1500000, 60000000), ('patterns-release', 'rgx_rel', 500000, 20000000), ('patterns-asan', 'rgx_asan', 60000, 3000000)])
    har('C21', 'Random histories on the libffi module from wasm code in both stack layouts: call interfaces of 0 to 200 arguments of every built-in type made in every way (refused ones and variadic ones included), native functions called with ffi_call and ffix_call, closures and callbacks made, prepared again, called by native code (repeatedly, nested, from several threads at once) and by wasm through native code, released in any order. '
        'Natives and native callers read and write the raw System V argument registers and stack slots, so the values on both sides are compared without libffi; saved registers, stack alignment, operands pending, user data, results and the memory behind them and the heap are checked. Without libffi the module must do nothing. Non-trivial: the history ended with all comparisons made; distinct by the hash of its operations and signatures.',
        'differential monitors at register level on both sides of every native call and callback, heap accounting, AddressSanitizer and ThreadSanitizer',
        'Held on the generated histories only; scalar argument types; callbacks stay within the 4096 byte callback stack; libffi itself is trusted.',
        [('histories', 'ffi', 500000, 60000000), ('histories-asan', 'ffi_asan', 100000, 5000000), ('histories-tsan', 'ffi_tsan', 20000, 1000000, {'env': {'TSAN_OPTIONS': 'exitcode=79:halt_on_error=1:detect_deadlocks=0'}}), ('disabled', 'ffi_off', 20000, 200000)],
        API + ['libffi as installed behaves as documented'])
    TSN = {'env': {'TSAN_OPTIONS': 'exitcode=79:halt_on_error=1:detect_deadlocks=0'}}
    har('C22', 'Random histories of libuv module calls from wasm code in both stack layouts, with the libuv functions behind them watched (arguments, results, results forced, thread creation refused), and scenarios of 2 to 15 wasm threads: counters under lock or trylock, bounded queues and turn-taking with conditions, deep recursions on the thread stacks, threads started by threads or running host functions, with random delays. '
        'Every thread must start once with its argument and end, critical sections exclude each other, queues stay in order, every item and turn is accounted for, and ended threads leave no heap block, task or mapping. Non-trivial: the scenario ended with all comparisons made; distinct by the hash of operations and of the observed order of events.',
        'online monitors on a host event log (mutual exclusion, order, conservation, exactly-once), interposed libuv functions, heap, task and mapping accounting, ThreadSanitizer and AddressSanitizer',
        'Held on the observed schedules only; the generated machine code is not instrumented by ThreadSanitizer; libuv itself is trusted.',
        [('threads', 'uv', 300000, 30000000), ('threads-asan', 'uv_asan', 40000, 2000000), ('threads-tsan', 'uv_tsan', 15000, 800000, TSN)],
        API + ['libuv 1.48 as installed behaves as documented'])
    har('C23', 'Random histories of WASI calls from wasm code in both stack layouts: all 46 functions with random arguments, io vectors, buffers up to the last byte of guest memory, memory growth, reinitialisation and (un)loading of the library; uvwasi (not installed) is replaced by recording stand-ins that check what they are given and return random error codes and data. One case in eight runs wasiexec in a child process on generated, damaged or missing files. '
        'All arguments, io vectors and translated addresses must be the guest\'s, the error code and the output bytes must arrive in the places WASI prescribes and no other byte of guest memory may change; environment, arguments, heap blocks and contexts are accounted for. Non-trivial: the history ended with all comparisons made; distinct by the hash of the functions called.',
        'recording stand-ins of the host interface, shadow guest memory compared after every call, event order of the child process, heap accounting, AddressSanitizer with UndefinedBehaviorSanitizer',
        'Held on the observed calls only; uvwasi itself is not installed and not exercised; its structures are assumed to have the layout of its documentation.',
        [('calls', 'wasi', 250000, 20000000), ('calls-asan', 'wasi_asan', 40000, 2000000)],
        API + ['uvwasi has the interface of harness/wasi/uvwasi.h'])
    return C
