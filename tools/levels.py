_P = ('TLA+ specification of the command-line processor (CmdrParser); TLC enumerates all command lines over a fixed alphabet up to a '
      'bound, and simulates longer ones, checking the invariants; every behaviour is replayed into the real library and compared')
_PT = 'TLA+/TLC model checking; model behaviours replayed into the implementation'
_ST = ('TLA+/TLC model checking of the guarantees; executions of the real code under a controlled scheduler are recorded and checked to be '
       'behaviours of the specification (trace validation), and data races are excluded on them')
NOTE = {}
for _i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C12', 'C13', 'C28'):
    NOTE[_i] = (_PT, _P)


def _seq(i, spec, what):
    NOTE[i] = (_PT, f'TLA+ specification {spec}: TLC enumerates {what} up to a bound and simulates longer ones, checking the invariants; every '
                    'behaviour is replayed into the real code and every observation compared')


def _conc(i, spec, what):
    NOTE[i] = (_ST, f'TLA+ specification {spec}, checked by TLC over all interleavings of small configurations; programs generated by TLC ({what}) '
                    'run on the real code under a scheduler that explores bounded-preemption and random schedules; each recorded history is checked '
                    'by TLC against the specification')


_seq('C11', 'Registration', 'histories of registrations, good and colliding')
_seq('C14', 'Store', 'histories of writes, reads and references over hierarchical keys')
_seq('C15', 'Store', 'histories of writes over hierarchical keys, with the views derived from the map')
_seq('C17', 'Typed', 'texts built token by token for every value type')
_seq('C23', 'PriorityQueue', 'histories of pushes and pops')
_seq('C24', 'Observer', 'histories of registration, scopes and notification')
_seq('C26', 'Signal', 'histories of connections of every kind and emissions')
_seq('C27', 'Scopes', 'programs of scope guards with returns and exceptions')
_seq('C30', 'Yaml', 'sets of documents of maps, scalars and sequences')
_seq('C29', 'Chrono', 'durations, points in time and dates, and sequences of format flags,')
_seq('C31', 'Strings', 'texts with every separator, prefix and replacement, and variable references')
_seq('C32', 'Help', 'help screens and trees of random menus at every width, setting and way of asking')
_seq('C33', 'Colour', 'sequences of requests to colorizers and of style names, shown on a terminal,')
_seq('C34', 'Shell', 'shell scripts run one by one and at the same time')
_seq('C35', 'Files', 'histories of files and mappings, with other threads and processes meanwhile,')
_seq('C36', 'Completion', 'random command lines of random menus, completed by a real bash that has sourced the generated script,')
_conc('C16', 'SharedStore', 'writers, readers, key tests and subtrees')
_conc('C18', 'Pool', 'queued tasks of every kind, throwing tasks, shutdown')
_conc('C19', 'Pool', 'queued tasks, joining and destroying the pool')
_conc('C20', 'PoolLite', 'queued tasks from several threads and from tasks')
_conc('C21', 'MsgQueue', 'producers, consumers with and without a time limit, clear')
_conc('C22', 'CondWait', 'waiters with and without a time limit, setters, killers')
_conc('C25', 'Subject', 'subscribers, leavers and emitters')
NA = {}
