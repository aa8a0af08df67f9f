"""property -> (module, function, level, technique)"""
AI = 'abstract interpretation of the source with provenance-tracking values (pysa): '
CHECKS = {
    'C01': ('codec', 'c01', 'other', AI + 'layout of every encoded frame compared with the published field table'),
    'C02': ('codec', 'c02', 'other', AI + 'decoder composed with encoder; every decoded attribute traced to its wire position'),
    'C03': ('codec', 'c03', 'other', AI + 'enumeration tables compared with the published ones; every frame attribute shown to be a member'),
    'C04': ('codec', 'c04', 'other', AI + 'header map layout, loop progress, and rejection of malformed classes of input'),
    'C05': ('codec', 'c05', 'other', AI + 'exception-escape analysis of the decoders on unconstrained bytes'),
    'C06': ('server', 'c06', 'other', AI + 'every path of the connection loop: bytes consumed per iteration against the announced lengths'),
    'C07': ('server', 'c07', 'other', AI + 'the request id field of every written frame traced to the frame it answers'),
    'C08': ('server', 'c08', 'other', AI + 'typestate per received frame: replies written on every path'),
    'C09': ('server', 'c09', 'other', AI + 'typestate per received one-way frame: no write on any path of either server'),
    'C10': ('server', 'c10', 'other', AI + 'status of every written frame against the cause on its path'),
    'C11': ('clients', 'c11', 'other', AI + 'every write of the asyncio classes and every send of the blocking client compared with the whole frame'),
    'C12': ('clients', 'c12', 'other', AI + 'effect analysis of everything that runs on a loop thread against the calls that block; the thread a service method runs on'),
    'C13': ('clients', 'c13', 'other', AI + 'progress of every read loop at the end of the stream'),
    'C14': ('server', 'c14', 'other', AI + 'reachability of service factories from every listener, with a second listener of either kind in the process'),
    'C15': ('server', 'c15', 'other', AI + 'typestate of the connection at every exit of its handler'),
    'C16': ('clients', 'c16', 'other', AI + 'provenance of the content every call returns, with responses and other calls arriving at every suspension'),
    'C17': ('clients', 'c17', 'other', AI + 'typestate of every pending call after every response and every loss of its connection'),
    'C18': ('clients', 'c18', 'other', AI + 'exception-escape analysis of both clients against the library\'s errors; results against the status they came with'),
    'C19': ('clients', 'c19', 'other', AI + 'the tables of the client at every end of every call, searched for its request id'),
    'C20': ('clients', 'c20', 'other', AI + 'ownership analysis: the tables the loop thread changes and all asyncio objects, against every use on another thread'),
    'C21': ('clients', 'c21', 'other', AI + 'typestate of every connection: dials in progress, usable connections, and who discards what'),
    'C22': ('clients', 'c22', 'other', AI + 'the frame type of every one-way call, and reachability of a wait from it'),
    'C23': ('clients', 'c23', 'other', AI + 'fixpoint of the heartbeat timer over every outcome of every heartbeat: what happens between two sleeps, and every way it can end'),
    'C24': ('clients', 'c24', 'other', AI + 'provenance of every announced timeout, and linear bounds on every wait'),
    'C25': ('pool', 'c25', 'other', AI + 'lockset and critical-section analysis of every count update; typestate of every connection created'),
    'C26': ('clients', 'c26', 'other', AI + 'typestate of every connection at every exit of every pool operation and of every client call'),
    'C27': ('pool', 'c27', 'other', AI + 'lockset over every access to the entries; size bound at every lock release; values leaving against values disposed of'),
    'C28': ('pool', 'c28', 'other', AI + 'atomicity of look-up and creation under the container lock; lifetime of the manager a call goes through'),
    'C29': ('pool', 'c29', 'other', AI + 'typestate of every connection taken out of a pool: checked, and with what result, when handed out'),
    'C30': ('mesh', 'c30', 'other', AI + 'every path of every mesh operation against what the mesh answered on it'),
    'C31': ('mesh', 'c31', 'other', AI + 'typestate of the service map against the answers of the mesh; every change of the map after its answer'),
    'C32': ('mesh', 'c32', 'other', AI + 'the messages sent to the mesh on every path, against the registered interfaces'),
    'C33': ('trace', 'c33', 'other', AI + 'baggage traced from the span context into the header bytes of every frame sent, and from a header back'),
    'C34': ('trace', 'c34', 'other', AI + 'baggage of every span derived in every way the tracing API offers, against the baggage of its origin'),
    'C35': ('trace', 'c35', 'other', AI + 'the ids of every short order of derivations; and for any number of concurrent ones, effect analysis of the counter: read and advanced in one critical section of a lock that is there before'),
    'C36': ('trace', 'c36', 'other', AI + 'the attributes of every span started, finished, or left by a block that ends in any way'),
    'C37': ('trace', 'c37', 'other', AI + 'provenance of every request id: an endless counter advanced in one step, reduced to 31 bits'),
    'C38': ('server', 'c38', 'other', AI + 'provenance of the factory, context, method and arguments of every service call'),
}
NOTE = ('Decided on every path of the abstract interpretation of the current source, for all inputs of the scenario; trusts the '
        'interpreter in pysa/ and its models of the standard library.')
NOTES = {}
DROPPED = {}
