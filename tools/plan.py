"""Which scenarios decide which property: (program, instrumentation, scenario, share of the time)."""
F = lambda prof, w=1, v='tsan', p='feeder': (p, v, prof, w)
PLAN = {
 'C01': [F('general', 2), F('gps', 2, 'tsan', 'rcnet'), F('talkback'), F('history'), F('idle'), F('general', 1, 'tsan', 'rc')],
 'C02': [F('history', 2), F('general', 2), F('overload')],
 'C03': [F('history', 2), F('overload'), F('general', 2)],
 'C04': [F('general', 2), F('gps', 1, 'tsan', 'rcnet'), F('serial', 2), F('talkback')],
 'C05': [F('general', 2), F('idle'), F('oom'), F('talkback'), F('serial'), F('general', 1, 'tsan', 'rc')],
 'C06': [F('idle', 3), F('general'), F('serial', 1, 'tsan', 'buf')],
 'C07': [F('talkback', 3), F('garbage', 2), F('serial'), F('manage', 1, 'tsan', 'rc')],
 'C08': [F('talkback', 2), F('general', 2), F('garbage'), F('refilter', 3, 'tsan', 'rc'), F('frames', 1, 'tsan', 'parse')],
 'C09': [F('garbage', 3), F('general', 2), F('frames', 1, 'tsan', 'parse'), F('frames', 1, 'kasan', 'parse')],
 'C10': [F('general', 3), F('garbage', 2), F('general', 1, 'tsan', 'rc')],
 'C11': [F('overload', 2), F('history', 2), F('oom'), F('serial', 1, 'tsan', 'buf'), F('threads', 2, 'tsan', 'buf'), F('oom', 1, 'tsan', 'buf'), F('serial', 1, 'kasan', 'buf')],
 'C12': [F('serial', 3), F('talkback')],
 'C13': [F('serial', 3), F('talkback')],
 'C14': [F('gps', 3, 'tsan', 'rcnet'), F('general', 1, 'tsan', 'rcnet'), F('general'), F('positions', 1, 'tsan', 'gps')],
 'C15': [F('shutdown', 3), F('general'), F('shutdown', 1, 'tsan', 'rcnet'), F('shutdown', 1, 'tsan', 'rc'), F('cycle', 1, 'tsan', 'gplib')],
 'C16': [F('comp', 4, 'tsan', 'comp'), F('shutdown'), F('shutdown', 1, 'tsan', 'rc'), F('shutdown', 1, 'tsan', 'rcnet'), F('comp', 1, 'kasan', 'comp')],
 'C17': [F('stats', 3), F('general', 2), F('history'), F('serial', 1, 'tsan', 'buf')],
 'C18': [F('wd', 1, 'tsan', 'rcwd'), F('fpga', 1, 'tsan', 'rc'), F('general', 2, 'tsan', 'rc'), F('manage', 1, 'tsan', 'rc'), F('shutdown', 1, 'tsan', 'rc')],
 'C19': [F('gps', 3, 'tsan', 'rcnet'), F('general', 1, 'tsan', 'rcnet'), F('gps', 1, 'kasan', 'rcnet'), F('gps', 1, 'tsan', 'rc'), F('tsip', 1, 'tsan', 'parse'), F('tsip', 1, 'kasan', 'parse')],
 'C20': [F('fpga', 4, 'tsan', 'rc'), F('general', 1, 'tsan', 'rc'), F('fpga', 1, 'kasan', 'rc')],
 'C21': [F('general', 2), F('addr'), F('shutdown', 2), F('general', 1, 'tsan', 'rcnet'), F('oom'), F('shutdown', 1, 'tsan', 'rc'), F('manage', 1, 'tsan', 'rc')],
 'C22': [F('addr', 5), F('addr', 2, 'tsan', 'rcnet'), F('general', 2), F('idle')],
 'C23': [F('lib', 3, 'tsan', 'gplib'), F('lib', 2, 'tsan', 'rclib'), F('cycle', 1, 'tsan', 'gplib'), F('cycle', 1, 'tsan', 'rclib'), F('oom', 1, 'kasan', 'gplib'), F('lib', 1, 'kasan', 'rclib')],
 'C24': [F('overload', 2), F('general', 2), F('talkback', 2), F('history')],
 'C25': [F('config', 3), F('save', 1, 'tsan', 'rc'), F('save', 1, 'tsan', 'rcnet'), F('config', 1, 'tsan', 'rcnet'), F('config', 1, 'tsan', 'kit'), F('config', 1, 'kasan'), F('save', 1, 'kasan', 'rc')],
 'C26': [F('garbage', 2, 'kasan'), F('oom', 2, 'kasan'), F('general', 1, 'kasan'), F('general'), F('talkback', 1, 'kasan'), F('gps', 2, 'kasan', 'rcnet'), F('fpga', 1, 'kasan', 'rc'), F('manage', 1, 'kasan', 'rc'), F('config', 1, 'kasan')],
 'C27': [F('manage', 3, 'tsan', 'rc'), F('manage', 1, 'tsan', 'donated'), F('talkback', 1, 'tsan', 'donated'), F('talkback', 1, 'tsan', 'kit'), F('manage', 1, 'kasan', 'rc')],
}
RULE = ('One case is one complete simulated execution: a seed decides configuration, peers, traffic, every scheduling decision, delay and fault. '
        'Cases are generated from consecutive seeds; a case is non-trivial if its execution (hash over all scheduling decisions, system call results and bytes) differs from every other case of the check.')
ASSUMPTIONS = [
 'the C library, the kernel and the network behave as the simulator models them (POSIX socket, file, thread and signal semantics including cancellation; TCP delivers in order or fails)',
 'threads interleave at system calls and at sampled memory accesses; effects of weak memory ordering are not modelled',
 'a killed process keeps what it wrote to the file system, unflushed buffers are lost; no power failure',
 'bounds on times assume that clock steps go forward and that after the faults end the machine is not overloaded',
]
