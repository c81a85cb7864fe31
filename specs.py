"""Which harnesses decide which property, with their bounds per tier."""
KNOWN_EXTERNAL = set('''malloc calloc realloc free memcpy memmove memset memcmp bcmp abort __assert_fail'''.split())
TH64 = {'th64': 'uint64_t th64(const void*, size_t, uint64_t);'}
SPECS = {}
def add(prop, name, file, repo, defs='', quick='', thorough=None, qtime=60, ttime=600, only=None, **kw):
    """defs: common defines; quick/thorough: tier defines (thorough=None: same as quick)"""
    SPECS.setdefault(prop, []).append(dict(name=name, file=file, repo=repo.split(), common=defs, quick=quick,
        thorough=quick if thorough is None else thorough, qtime=qtime, ttime=ttime, only=only, **kw))
def harnesses(prop, tier):
    out = []
    for h in SPECS.get(prop, []):
        if h['only'] and h['only'] != tier: continue
        h = dict(h)
        h['defs'] = ['-D' + x for x in (h['common'] + ' ' + h[tier]).split()]
        h['time'] = h['qtime' if tier == 'quick' else 'ttime']
        h['bounds'] = ' '.join(x for x in (h['common'] + ' ' + h[tier]).split())
        out.append(h)
    return out
ASSUME = {}
def assumptions(prop): return ASSUME.get(prop, [])

def core(prop, name, defs, quick='', thorough=None, **kw):
    add(prop, name, 'core.c', 'pogocache.c', defs + ' ASSERTS=(1u<<%d)' % int(prop[1:]), quick, thorough, stubs=TH64 if 'STUBHASH' in defs else {}, **kw)

# S01 entry encoding
add('S01', 'meta', 'roundtrip.c', 'pogocache.c', 'STUBHASH', 'KLENS=0,1,2,3 VLENS=0,1,2', stubs=TH64)
add('S01', 'keys', 'roundtrip.c', 'pogocache.c', 'STUBHASH NOMETA VLENS=1', 'KLENS=0,1,2,3,4,5,6,7,8,9', stubs=TH64)
add('S01', 'twokeys', 'roundtrip.c', 'pogocache.c', 'STUBHASH NOMETA VLENS=1 TWOKEYS', 'KLENS=1,2,3,4,5', stubs=TH64)
add('S01', 'edges', 'roundtrip.c', 'pogocache.c', 'STUBHASH NOMETA SYMK=2', 'KLENS=126,127,128,129,130,170,171,16383,16384 VLENS=0,1', stubs=TH64, maxinst=400000000)
add('S01', 'sizes', 'roundtrip.c', 'pogocache.c', 'STUBHASH NOMETA SYMK=1 KLENS=3', 'VLENS=200,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255,256,257,65490,65491,65492,65493,65494,65495,65496,65497,65498,65499,65500,65501,65502,65503,65504,65505,65506,65507,65508,65509,65510,65511,65512,65513,65514,65515,65516,65517,65518,65519,65520,65521,65522,65523,65524,65525,65526,65527,65528,65529,65530,65531,65532,65533,65534,65535,65536,65537', stubs=TH64, maxinst=400000000)

# S02 identity / latest value
core('S02', 'ident', 'STUBHASH TTL=0 COND=0 NOFLAGS USECAS=0 OPMASK=7', 'NK=3 CB=0 NOPS=2 NLAYOUT=5', 'NK=4 CB=0 NOPS=3 NLAYOUT=6')
core('S02', 'identcb', 'STUBHASH TTL=0 COND=0 NOFLAGS USECAS=0 OPMASK=15', 'NK=3 CB=1 NOPS=1 NLAYOUT=5', 'NK=3 CB=1 NOPS=2 NLAYOUT=5')
core('S02', 'ident2sh', 'STUBHASH TTL=0 COND=0 NOFLAGS USECAS=0 OPMASK=7 NSHARDS=2 ONELAYOUT=3', 'NK=3 CB=0 NOPS=2', 'NK=4 CB=0 NOPS=3')
core('S02', 'realhash', 'TTL=0 COND=0 NOFLAGS USECAS=0 OPMASK=7', 'NK=3 CB=0 NOPS=2', 'NK=5 CB=0 NOPS=3')
core('S02', 'resize', 'STUBHASH TTL=0 COND=0 NOFLAGS USECAS=0 OPMASK=7 FILL=46', 'NK=3 CB=0 NOPS=1 NLAYOUT=3', 'NK=4 CB=0 NOPS=2 NLAYOUT=6')
core('S02', 'shrink', 'STUBHASH SHRINK=1 FILL=50 TTL=0 COND=0 NOFLAGS USECAS=0 OPMASK=15', 'DELFILL=39 NK=2 CB=1 NOPS=2 NLAYOUT=2', 'DELFILL=39 NK=3 CB=1 NOPS=2 NLAYOUT=6')
add('S02', 'big', 'bigtable.c', 'pogocache.c', '', 'N=420 LEFTS=0,3,40,80,90', 'N=1700 LEFTS=0,1,20,47,60,95,97,150,200', maxinst=400000000)
add('S02', 'biggrow', 'bigtable.c', 'pogocache.c', '', 'N=1000 LEFTS=100,150', 'N=1700 LEFTS=100,120,130,150,170', maxinst=400000000)
core('S03', 'ttl', 'STUBHASH COND=0 NOFLAGS USECAS=0 CB=0', 'NK=1 ONELAYOUT=0 NOPS=3 OPMASK=31', 'NK=2 ONELAYOUT=0 NOPS=3 OPMASK=31')
core('S03', 'keepttl', 'STUBHASH COND=0 KEEPTTL=1 NOFLAGS USECAS=0 CB=0 ONELAYOUT=0 OPMASK=7', 'NK=1 NOPS=2', 'NK=2 NOPS=2')
core('S04', 'cond1', 'STUBHASH NLAYOUT=2', 'NK=1 NOPS=1 OPMASK=7', 'NK=1 NOPS=2 OPMASK=7')
core('S05', 'acct', 'STUBHASH ONELAYOUT=0 NOFLAGS', 'NK=2 NOPS=1 OPMASK=63 USECAS=0', 'NK=2 NOPS=2 OPMASK=63')
core('S05', 'acctcas', 'STUBHASH ONELAYOUT=1 NOFLAGS', 'NK=1 NOPS=2 OPMASK=63 USECAS=1 CB=0', 'NK=1 NOPS=3 OPMASK=63 USECAS=1')
core('S05', 'acctshrink', 'STUBHASH SHRINK=1 FILL=50 DELFILL=39 TTL=0 COND=0 NOFLAGS USECAS=0', 'NK=2 NOPS=1 NLAYOUT=2 OPMASK=63', 'NK=3 NOPS=2 NLAYOUT=6 OPMASK=63')
core('S05', 'acct2sh', 'STUBHASH ONELAYOUT=3 NOFLAGS NSHARDS=2 TTL=0 USECAS=0', 'NK=3 NOPS=1 OPMASK=63 COND=0', 'NK=3 NOPS=2 OPMASK=63')
core('S06', 'life', 'STUBHASH ONELAYOUT=0 NOFLAGS USECAS=0 SYMSIX', 'NK=2 NOPS=1 OPMASK=127 COND=0', 'NK=2 NOPS=2 OPMASK=127')
core('S06', 'lifeshrink', 'STUBHASH SHRINK=1 FILL=50 DELFILL=39 TTL=0 COND=0 NOFLAGS USECAS=0', 'NK=2 NOPS=1 NLAYOUT=2 OPMASK=127', 'NK=3 NOPS=2 NLAYOUT=6 OPMASK=127')
core('S06', 'lifecond', 'STUBHASH ONELAYOUT=0 NOFLAGS TTL=0 USECAS=0', 'NK=1 NOPS=2 OPMASK=127', 'NK=2 NOPS=2 OPMASK=127')
core('S06', 'liferesize', 'STUBHASH NOFLAGS TTL=0 USECAS=0 CB=0 COND=0 FILL=46', 'NK=3 NOPS=1 NLAYOUT=2 OPMASK=127', 'NK=4 NOPS=2 NLAYOUT=3 OPMASK=127')
core('S07', 'nomem', 'STUBHASH ONELAYOUT=0 NOFLAGS FAILALLOC=1', 'NK=1 NOPS=2 OPMASK=127 TTL=0 USECAS=0', 'NK=2 NOPS=2 OPMASK=127 TTL=0')
core('S07', 'nomemttl', 'STUBHASH ONELAYOUT=0 NOFLAGS FAILALLOC=1 COND=0', 'NK=2 NOPS=1 OPMASK=127 USECAS=0', 'NK=2 NOPS=2 OPMASK=127')
core('S07', 'nomemresize', 'STUBHASH NOFLAGS FAILALLOC=1 FILL=46 TTL=0 CB=0 COND=0 USECAS=0', 'NK=3 NOPS=1 NLAYOUT=2 OPMASK=127', 'NK=4 NOPS=2 NLAYOUT=3 OPMASK=127')
core('S07', 'refuse', 'STUBHASH NOEVICT=1 LOWMEM=1 NOFLAGS USECAS=0 ONELAYOUT=0 TTL=0 CB=0', 'NK=2 NOPS=2 OPMASK=7 COND=0', 'NK=2 NOPS=2 OPMASK=127')
add('S07', 'new', 'newcache.c', 'pogocache.c', '', 'NSH=4', 'NSH=6')
core('S07', 'nomemshrink', 'STUBHASH NOFLAGS FAILALLOC=1 SHRINK=1 FILL=50 DELFILL=39 TTL=0 CB=0 COND=0 USECAS=0', 'NK=2 NOPS=1 NLAYOUT=2 OPMASK=63', 'NK=3 NOPS=2 NLAYOUT=3 OPMASK=63')
core('S09', 'lowmem', 'STUBHASH NOFLAGS USECAS=0 LOWMEM=1 CB=0', 'NK=3 NOPS=1 NLAYOUT=3 TTL=0 COND=0 OPMASK=3', 'NK=4 NOPS=2 NLAYOUT=3 TTL=0 COND=0 OPMASK=3')
core('S09', 'lowmemttl', 'STUBHASH NOFLAGS USECAS=0 LOWMEM=1 CB=0', 'NK=3 NOPS=1 ONELAYOUT=2 TTL=1 COND=0 OPMASK=1', 'NK=3 NOPS=2 NLAYOUT=3 TTL=1 OPMASK=3')
core('S09', 'lowmemhash', 'STUBHASH NOFLAGS USECAS=0 LOWMEM=1 CB=0 NOEVICT=1', 'NK=4 NOPS=1 ONELAYOUT=4 TTL=0 COND=0 OPMASK=1', 'NK=5 NOPS=2 ONELAYOUT=4 TTL=0 COND=0 OPMASK=3')
core('S10', 'notify', 'STUBHASH NOFLAGS USECAS=0 ONELAYOUT=0', 'NK=2 NOPS=1 OPMASK=63', 'NK=2 NOPS=2 OPMASK=63')
core('S10', 'notify2', 'STUBHASH NOFLAGS USECAS=0 ONELAYOUT=3 NSHARDS=2 TTL=0 COND=0', 'NK=3 NOPS=1 OPMASK=63', 'NK=3 NOPS=2 OPMASK=63')
core('S10', 'notifylow', 'STUBHASH NOFLAGS USECAS=0 LOWMEM=1 CB=0 COND=0', 'NK=3 NOPS=1 ONELAYOUT=2 OPMASK=1', 'NK=3 NOPS=2 ONELAYOUT=2 OPMASK=3')
core('S08', 'itershrink', 'STUBHASH SHRINK=1 FILL=50 DELFILL=39 COND=0 NOFLAGS USECAS=0', 'NK=2 NOPS=1 NLAYOUT=2 OPMASK=120', 'NK=3 NOPS=1 NLAYOUT=6 OPMASK=120')
core('S08', 'iter', 'STUBHASH NLAYOUT=3 USECAS=0 NOFLAGS', 'NK=3 NOPS=1 OPMASK=120', 'NK=4 NOPS=1 OPMASK=120')
# S11 batches, S12 concurrency
def batch(name, defs, quick='', thorough=None, **kw):
    add('S11', name, 'core.c', 'pogocache.c', defs + ' BATCH STUBHASH', quick, thorough, stubs=TH64, **kw)
batch('batchops', 'NOFLAGS TTL=0 USECAS=0 ONELAYOUT=3 NSHARDS=2', 'NK=2 NOPS=2 OPMASK=127 COND=0', 'NK=3 NOPS=2 OPMASK=127')
batch('batchcond', 'NOFLAGS USECAS=1 ONELAYOUT=3 NSHARDS=2', 'NK=1 NOPS=2 OPMASK=7 TTL=0', 'NK=2 NOPS=2 OPMASK=7')
def conc(prop, name, defs, quick, thorough=None, **kw):
    add(prop, name, 'conc.c', 'pogocache.c', 'STUBHASH SX_THREADS ' + defs, quick, thorough, stubs=TH64, **kw)
conc('S11', 'isolation', 'NK=2 KINDLIST=LOAD,INCR,BATCH2,STORE,DELETE NOPS=1', 'NSHARDS=1', 'NSHARDS=1 NT=3', preempt=2)
conc('S11', 'isolation2sh', 'NK=2 NSHARDS=2', 'NOPS=1 KINDLIST=LOAD,INCR,BATCH2,STORE,COUNT', 'NOPS=2 KINDLIST=LOAD,INCR,BATCH2', preempt=2)
conc('S12', 'single', 'NK=2 THREADBATCH=1', 'NOPS=1 KINDLIST=STORE,LOAD,DELETE,ADD,SCAN,CLEAR,SWEEP,COUNT', 'NOPS=1 NT=3 KINDLIST=STORE,LOAD,DELETE,ADD,SCAN,CLEAR,SWEEP,COUNT', preempt=2)
conc('S12', 'pairs', 'NK=1 THREADBATCH=1 NOPS=2', 'KINDLIST=STORE,LOAD,DELETE,ADD,SCAN', 'KINDLIST=STORE,LOAD,DELETE,ADD,SCAN,CLEAR,INCR', preempt=2)
conc('S12', 'twoshards', 'NK=2 NSHARDS=2 THREADBATCH=1', 'NOPS=1 KINDLIST=STORE,LOAD,DELETE,SCAN,CLEAR,SWEEP,COUNT', 'NOPS=2 KINDLIST=STORE,LOAD,SCAN,CLEAR,COUNT', preempt=2)
conc('S12', 'grow', 'NK=1 THREADBATCH=1 FILL=48', 'NOPS=1 KINDLIST=STORE,LOAD,DELETE,COUNT', 'NOPS=1 KINDLIST=STORE,LOAD,DELETE,SCAN', preempt=2)
NOTE = {}
SRVSRC = 'conn.c parse.c resp.c memcache.c http.c postgres.c cmds.c args.c buf.c util.c stats.c monitor.c hashmap.c xmalloc.c pogocache.c'
def srv(prop, name, file, defs='', quick='', thorough=None, repo=SRVSRC, **kw):
    add(prop, name, file, repo, 'SX_ENV_PTHREAD ' + defs, quick, thorough, **kw)
srv('P01', 'any', 'p_resp.c', '', "L=10", "L=14")
srv('P01', 'shapes', 'p_resp.c', 'TEMPLATE')
srv('P02', 'any', 'p_telnet.c', '', 'L=6', 'L=8')
srv('P02', 'shapes', 'p_telnet.c', 'TEMPLATE')
UTIL = 'util.c buf.c xmalloc.c'
add('U01', 'parse', 'u_num.c', UTIL, 'PARSE', 'L=6', 'L=8', qtime=120)
add('U01', 'digits', 'u_num.c', UTIL, 'PARSE DIGITS L=17', qtime=120)
add('U01', 'limits', 'u_num.c', UTIL, 'PARSE EDGE', 'W=4', 'W=6', qtime=120)
add('U01', 'format', 'u_num.c', UTIL, 'FORMAT', qtime=120)
add('U01', 'add', 'u_num.c', UTIL, 'CLAMP')
add('U01', 'mul', 'u_num.c', UTIL, 'CLAMP MUL', qtime=120)
add('U02', 'codec', 'u_code.c', UTIL, '', 'CRC=1', 'CRC=2', qtime=120)
UTIL2 = 'util.c buf.c args.c xmalloc.c'
add('U03', 'bufs', 'u_args.c', UTIL2, 'BUFS', 'NOPS=3', 'NOPS=4')
add('U03', 'args', 'u_args.c', UTIL2, 'ARGS', 'NOPS=4', 'NOPS=5')
add('U03', 'names', 'u_args.c', UTIL2, 'NAMES')
def hmap(name, defs, quick, thorough): add('U04', name, 'u_map.c', 'hashmap.c', defs, quick, thorough)
hmap('small', 'FILL=2 DELFILL=0 CAPX=1 FAIL=0', 'NK=3 NH=5 NOPS=2', 'NK=4 NH=5 NOPS=3')
hmap('grow', 'FILL=9 DELFILL=0 CAPX=0', 'NK=2 NH=7 NOPS=3 FAIL=1', 'NK=3 NH=7 NOPS=4 FAIL=1')
hmap('shrink', 'FILL=40 DELFILL=35 CAPX=0', 'NK=1 NH=5 NOPS=3 FAIL=1', 'NK=2 NH=7 NOPS=4 FAIL=1')
NUMSTUB = {'parse_i64': 'bool parse_i64(const char*,size_t,int64_t*);', 'parse_u64': 'bool parse_u64(const char*,size_t,uint64_t*);', 'u64toa': 'size_t u64toa(uint64_t,uint8_t*);', 'i64toa': 'size_t i64toa(int64_t,uint8_t*);'}
def cmd(prop, name, ops, defs='', quick='', thorough=None, **kw):
    srv(prop, name, 'cmds.c', 'NUMS OPLIST=' + ','.join('Q_' + o for o in ops.split()) + ' ' + defs, quick, thorough, stubs=NUMSTUB, **kw)
cmd('C02', 'cond', 'SET', 'PRE=1 OPTS=5', 'NK=1 VL=2', 'NK=2 VL=3')
cmd('C02', 'expire', 'SET', 'PRE=1 OPTS=6 SYMTIME', 'NK=1 VL=1', 'NK=1 VL=2')
cmd('C02', 'flags', 'SET', 'PRE=2 OPTS=9', 'NK=1 VL=1', 'NK=2 VL=2')
cmd('C02', 'cas', 'SET', 'PRE=2 OPTS=21', 'NK=1 VL=1', 'NK=2 VL=2')
cmd('C02', 'all', 'SET', 'PRE=1 SYMTIME', 'NK=1 VL=0 OPTS=27', 'NK=1 VL=1 OPTS=31', qtime=200)
cmd('C02', 'malformed', 'SET SETEX', 'PRE=3', 'NK=1 VL=1 OPTS=34', 'NK=1 VL=1 OPTS=62')
cmd('C02', 'setex', 'SETEX GET TTL', 'PRE=1 OPTS=0 SYMTIME', 'NK=1 VL=1 NOPS=2', 'NK=2 VL=1 NOPS=2', qtime=120)
cmd('C02', 'nomem', 'SET SETEX', 'PRE=3 NOEVICT=1', 'NK=1 VL=1 OPTS=5', 'NK=2 VL=2 OPTS=15')
cmd('C03', 'incr', 'INCR', 'PRE=7', 'NK=1 VL=2', 'NK=2 VL=3')
cmd('C03', 'incr2', 'INCR GET', 'PRE=4', 'NK=1 VL=1 NOPS=2', 'NK=2 VL=1 NOPS=2')
cmd('C04', 'append', 'APPEND GET', 'PRE=7', 'NK=1 VL=2 NOPS=2', 'NK=2 VL=3 NOPS=2')
cmd('C05', 'ttl', 'EXPIRE TTL TIME GET', 'PRE=1 SYMTIME', 'NK=1 VL=1 NOPS=2', 'NK=1 VL=1 NOPS=3')
cmd('C05', 'keep', 'EXPIRE APPEND INCR', 'PRE=7 SYMTIME', 'NK=1 VL=1 NOPS=1', 'NK=1 VL=1 NOPS=2')
cmd('C05', 'two', 'EXPIRE TTL TIME DEL COUNT', 'PRE=3 SYMTIME', 'NK=2 VL=0 NOPS=1', 'NK=2 VL=0 NOPS=2')
cmd('C10', 'multi', 'GET DEL COUNT MGET MGETS DBSIZE', 'PRE=3', 'NK=2 VL=1 NOPS=1', 'NK=2 VL=1 NOPS=2')
cmd('C10', 'three', 'DEL COUNT MGET MGETS', 'PRE=0 SYMTIME', 'NK=3 VL=1', 'NK=3 VL=2')
cmd('C10', 'seq', 'SET GET DEL MGET DBSIZE TIME', 'PRE=1 OPTS=0', 'NK=2 VL=0 NOPS=2', 'NK=2 VL=1 NOPS=2')
srv('P03', 'any', 'p_mc.c', 'STUBHASH', 'L=5', 'L=6', stubs=TH64)
srv('P03', 'shapes', 'p_mc.c', 'TEMPLATE STUBHASH', stubs=TH64)
def mc(name, words, defs, quick, thorough, **kw):
    srv('C06', name, 'p_mc.c', 'NUMS WLIST=%s ' % ','.join(str('set add replace cas append prepend incr decr touch delete gets flush_all'.split().index(w)) for w in words.split()) + defs, quick, thorough, stubs=NUMSTUB, **kw)
mc('store', 'set add replace', 'FLAGS=1 EXP=1 PREB=0', 'VL=1 NOPS=1', 'VL=3 NOPS=1')
mc('cas', 'cas set gets', 'FLAGS=0 EXP=0 PREB=0', 'VL=1 NOPS=2', 'VL=1 NOPS=3')
mc('join', 'append prepend', 'FLAGS=1 EXP=0 PREB=0', 'VL=2 NOPS=1', 'VL=3 NOPS=2')
mc('count', 'incr decr', 'FLAGS=0 EXP=0 PREB=0', 'VL=1 NOPS=2', 'VL=2 NOPS=2')
mc('touch', 'touch gets delete', 'FLAGS=0 EXP=0 PREB=0', 'VL=1 NOPS=1', 'VL=1 NOPS=2')
mc('touched', 'touch gets', 'FLAGS=0 EXP=0 PREB=0 NEGX=0', 'VL=0 NOPS=2', 'VL=1 NOPS=2', qtime=120)
mc('mixed', 'set delete gets flush_all incr', 'FLAGS=0 EXP=0 PREB=1', 'VL=1 NOPS=1', 'VL=1 NOPS=2')
srv('P04', 'shapes', 'p_http.c', 'STUBHASH', 'KL=3 QL=4', 'KL=4 QL=5', stubs=TH64)
srv('C12', 'http', 'p_http.c', 'NUMS STUBHASH', stubs=dict(NUMSTUB, **TH64))
EVC = {'evcommand': 'struct conn; struct args; void evcommand(struct conn*,struct args*);'}
srv('P05', 'any', 'p_pg.c', 'QUERY', 'L=4', 'L=5', stubs=EVC, qtime=120)
srv('P05', 'query', 'p_pg.c', 'QUERY TEMPLATE', stubs=EVC)
srv('P05', 'frame', 'p_pg.c', 'FRAME', stubs=EVC)
srv('P05', 'ext', 'p_pg.c', 'QLIST=0,1,3,4', 'NOPS=3', 'NOPS=4', stubs=EVC)
srv('P05', 'exttext', 'p_pg.c', 'QLIST=2,5,6,7,8,9', 'NOPS=3', 'NOPS=4', stubs=EVC, qtime=140)
srv('P05', 'names', 'p_pg.c', 'NAMES QLIST=0 NOPS=1', stubs=EVC)
def pgc(name, ops, defs, quick='', thorough=None, **kw): srv('C12', name, 'c_pg.c', 'STUBHASH OPLIST=' + ','.join('Q_' + o for o in ops.split()) + ' ' + defs, quick, thorough, stubs=TH64, **kw)
pgc('pgset', 'SET', 'PRE=1', 'NK=1', 'NK=2')
pgc('pgread', 'GET MGET TTL', 'PRE=3', 'NK=2', 'NK=2 NOPS=2')
pgc('pgcount', 'INCR', 'PRE=4', 'NK=1', 'NK=1 NOPS=2')
pgc('pgedit', 'EXPIRE APPEND TOUCH', 'PRE=3', 'NK=2', 'NK=2 NOPS=2')
pgc('pgkeys', 'DEL COUNT DBSIZE KEYS', 'PRE=3', 'NK=2', 'NK=3')
pgc('pgmisc', 'ECHO BAD', 'PRE=1', 'NK=1')
pgc('pgtype', 'TYPE GET MGET', 'PRE=1', 'NK=1 NOPS=2', 'NK=1 NOPS=3')
def authp(name, kind, quick, thorough): srv('C01', name, 'c_auth.c', 'STUBHASH KIND=%d HTTPMODE=%d' % (kind, kind in (2, 4)), quick, thorough, stubs=TH64)
authp('resp', 0, 'NOPS=2 PL=3', 'NOPS=3 PL=4')
authp('telnet', 4, 'NOPS=2 PL=2', 'NOPS=3 PL=3')
authp('memcache', 1, 'NOPS=2 PL=2', 'NOPS=3 PL=3')
authp('http', 2, 'NOPS=2 PL=2', 'NOPS=2 PL=3')
authp('postgres', 3, 'NOPS=3 PL=2', 'NOPS=4 PL=2')
srv('P06', 'any', 'p_seg.c', 'STUBHASH CUTS=1', 'L=3', 'L=4', stubs=TH64, qtime=100)
srv('P06', 'resp', 'p_seg.c', 'STUBHASH TEMPLATE=0 KINDS=6', 'CUTS=1', 'CUTS=2', stubs=TH64, qtime=200)
srv('P06', 'memcache', 'p_seg.c', 'STUBHASH TEMPLATE=1 KINDS=7', 'CUTS=1', 'CUTS=2', stubs=TH64)
srv('P06', 'http', 'p_seg.c', 'STUBHASH TEMPLATE=2 KINDS=5', 'CUTS=1', 'CUTS=2', stubs=TH64)
srv('P06', 'postgres', 'p_seg.c', 'STUBHASH TEMPLATE=3 KINDS=5', 'CUTS=1', 'CUTS=2', stubs=TH64)
for part in range(4):
    srv('P07', 'resp%d' % part, 'p_all.c', 'STUBHASH PART=%d' % part, 'NARGS=2 NAMELEN=1', 'NARGS=3', stubs=TH64)
    srv('P07', 'pg%d' % part, 'p_all.c', 'STUBHASH PGMODE PART=%d' % part, 'NARGS=2 NAMELEN=1', 'NARGS=3', stubs=TH64)
srv('P07', 'monitor', 'p_all.c', 'STUBHASH MONITOR', 'NARGS=1 NAMELEN=1', 'NARGS=2', stubs=TH64)
for k, nm, cnt in ((0, 'resp', 11), (1, 'memcache', 13), (2, 'http', 12), (3, 'postgres', 18)):
    srv('P08', nm, 'p_any.c', 'STUBHASH PROTO=%d KINDS=%d' % (k, cnt), 'L=3', 'L=4', stubs=TH64, qtime=150)
srv('C08', 'names', 'c_names.c', 'STUBHASH', stubs=dict(TH64, fnv1a_case='uint32_t fnv1a_case(const char*, size_t);'), qtime=120)
add('C08', 'hash', 'c_names.c', UTIL2, 'HASH')
add('C07', 'glob', 'u_glob.c', UTIL, '', 'PN=6 SN=6', 'PN=7 SN=7')
add('C07', 'stars', 'u_glob.c', UTIL, 'STARS', 'PN=6 SN=5', 'PN=7 SN=7')
srv('C07', 'keys', 'c_keys.c', 'OP=keys_ KINDS=3 NSH=2', 'NK=3 PN=2', 'NK=4 PN=3')
srv('C11', 'scan', 'c_keys.c', 'OP=scan KINDS=3 NSH=2', 'NK=4 PN=0', 'NK=6 PN=0')
srv('C11', 'scanmatch', 'c_keys.c', 'OP=scan NSH=1', 'KINDS=2 NK=3 PN=2', 'KINDS=3 NK=4 PN=2')
srv('C11', 'change', 'c_keys.c', 'OP=scan NSH=2 CHANGE KINDS=2', 'NK=4 PN=0', 'NK=6 PN=0')
srv('C11', 'malformed', 'c_keys.c', 'OP=scanbad KINDS=2 NSH=2 NK=2 PN=0')
srv('C09', 'whole', 'c_keys.c', 'OP=whole PN=0', 'NK=3 KINDS=3 NSH=3 NPROCS=3', 'NK=5 KINDS=3 NSH=5 NPROCS=6')
srv('C09', 'shards', 'c_keys.c', 'OP=whole PN=0 KINDS=3', 'NK=2 NSH=6 NPROCS=7', 'NK=3 NSH=8 NPROCS=9')

# persistence
CRC = dict(TH64, crc32='uint32_t crc32(const void*, size_t);')
def dsave(prop, name, defs, quick='', thorough=None, **kw):
    add(prop, name, 'd_save.c', 'save.c pogocache.c buf.c util.c xmalloc.c', 'SX_THREADS SX_ENV_PTHREAD SX_ENV_MUTEX SX_ENV_FILES ' + defs, quick, thorough, stubs=CRC, **kw)
dsave('D01', 'values', 'ROUNDTRIP NK=1 NPROCS=1', 'NSH=1 VL=2', 'NSH=2 VL=3', preempt=0, qtime=150)
dsave('D01', 'shards', 'ROUNDTRIP SYM=0', 'NK=3 NSH=3 NPROCS=2 NOTHREAD=1 CFG=0', 'NK=4 NSH=4 NPROCS=3 NOTHREAD=2', preempt=0)
dsave('D01', 'races', 'ROUNDTRIP SYM=0 CFG=0 NPROCS=2', 'NK=1 NSH=2', 'NK=2 NSH=2', preempt=2)
add('D01', 'huge', 'd_save.c', 'pogocache.c buf.c util.c xmalloc.c', 'SX_THREADS SX_ENV_PTHREAD SX_ENV_MUTEX SX_ENV_FILES HUGE_', stubs=CRC)
dsave('D02', 'any', 'CORRUPT NPROCS=1 NBLK=1 NSH=1', 'L=9', 'L=11', preempt=0, qtime=120)
dsave('D02', 'blocks', 'CORRUPT NPROCS=2 NBLK=3 NSH=2', 'L=4', 'L=8', preempt=0)
dsave('D02', 'faults', 'CORRUPT NPROCS=2 NBLK=2 NSH=1 FAULTS=1 NOTHREAD=1', 'L=1', 'L=3', preempt=0)
dsave('D02', 'races', 'CORRUPT NPROCS=2 NBLK=2 NSH=2', 'L=1', 'L=2', preempt=2)
dsave('D03', 'fail', 'SAVEFAIL', 'NK=2 NSH=2 NPROCS=2 FAULTS=1 NOTHREAD=1', 'NK=3 NSH=3 NPROCS=3 FAULTS=2 NOTHREAD=2', preempt=0)
dsave('D03', 'races', 'SAVEFAIL', 'NK=2 NSH=2 NPROCS=2 FAULTS=1', 'NK=2 NSH=2 NPROCS=2 FAULTS=2 NOTHREAD=1', preempt=2)
dsave('D03', 'clean', 'CLEAN FAULTS=1', preempt=0)
add('D02', 'crc', 'u_crc.c', 'util.c', '', 'L=1', 'L=2')
srv('D01', 'command', 'c_save.c', 'STUBHASH', repo=[x for x in SRVSRC if x != 'save.c'] if isinstance(SRVSRC, list) else ' '.join(x for x in SRVSRC.split() if x != 'save.c'), stubs=TH64)

MEMSTR = {'memstr': 'const char *memstr(double size, char *buf);'}
# O01 command line options; O02, O03 background threads and life cycle
def omain(prop, name, defs, quick='', thorough=None, repo='main.c util.c', **kw): add(prop, name, 'o_main.c', repo, 'SX_ENV_MAIN SX_ENV_PTHREAD ' + defs, quick, thorough, **kw)
omain('O01', 'one', 'OPTIONS NOPT=1', autolink=False)
omain('O01', 'two', 'OPTIONS NOPT=2', 'SMALL=1', autolink=False, qtime=200)
omain('O01', 'pairs', 'OPTIONS NOPT=2', autolink=False, only='thorough', ttime=800)
omain('O02', 'memory', 'SX_THREADS SX_ENV_FILES TICKS NE=1 SYMEXP=0 MEMO=1', 'STEPS=4', 'STEPS=6', stubs=MEMSTR, opaquefp=1, optstubs=['memstr'], repo='main.c util.c xmalloc.c pogocache.c', preempt=-1)
omain('O02', 'sweep', 'SX_THREADS SX_ENV_FILES TICKS SYMEXP=1 MEMO=0', 'NE=3 STEPS=2', 'NE=4 STEPS=3', stubs=MEMSTR, optstubs=['memstr'], repo='main.c util.c xmalloc.c pogocache.c', preempt=-1)
omain('O03', 'life', 'SX_THREADS SX_ENV_FILES LIFE', repo='main.c util.c xmalloc.c pogocache.c', preempt=-1)

# N01, N02 the event loop
def net(prop, name, defs, quick='', thorough=None, **kw): add(prop, name, 'n_net.c', 'net.c', 'SX_ENV_NET SX_ENV_PTHREAD ' + defs, quick, thorough, autolink=False, **kw)
net('N01', 'io', 'MAXC=1 SLOW=2 IOERR=1', 'ROUNDS=5', 'ROUNDS=7')
net('N01', 'work', 'MAXC=1 BG=1 SLOW=1 NOTHREAD=1', 'ROUNDS=6', 'ROUNDS=8')
net('N01', 'two', 'MAXC=2 BG=1', 'ROUNDS=6', 'ROUNDS=7')
net('N01', 'batch', 'MAXC=2 ACTS=2 HASHMUL=64', 'ROUNDS=4', 'ROUNDS=5')
net('N01', 'records', 'MAXC=1 KINDS=3 RECORD=1')
net('N02', 'limit', 'MAXC=4 LIMIT_=1 KINDS=2', 'ROUNDS=5', 'ROUNDS=7')
net('N02', 'setup', 'MAXC=3 LIMIT_=2 KINDS=3 SETERR=1', 'ROUNDS=5', 'ROUNDS=6')
net('N02', 'tls', 'MAXC=3 LIMIT_=1 KINDS=3 NOUNIX=1', 'ROUNDS=7', 'ROUNDS=8')
net('N02', 'churn', 'CHURN=1', 'ROUNDS=300')
def lst(prop, name, defs, quick='', thorough=None, **kw): add(prop, name, 'n_listen.c', 'net.c', 'SX_ENV_NET SX_ENV_PTHREAD ' + defs, quick, thorough, autolink=False, **kw)
lst('N03', 'where', 'FAIL=0')
lst('N03', 'fail', 'FAIL=1 NTH=2', '', 'FAIL=2 NTH=3')
