"""Properties and the harness instances that decide them."""
COMMON_ASSUMPTIONS=['the code is compiled to LLVM IR by clang 18 -O1 (library semantics as the compiler sees them); integer values are exact machine bit-vectors, doubles are IEEE-754 binary64 with round-to-nearest',
 'heap allocation never fails; libstdc++ functions that live in the shared library are the models in harness/rt.cpp',
 'everything outside the stated bounds (larger extents, more processes, longer histories) is not covered']
PROPS={}
_I={}
def prop(pid,bounds,assumptions=()):
    PROPS[pid]={'bounds':bounds,'assumptions':list(assumptions)}; _I[pid]=[]
def add(pid,name,harness,tiers='qt',**k):
    k['name']=name; k['harness']=harness; k['tiers']=tiers; _I[pid].append(k)
def instances(pid,tier): return [i for i in _I[pid] if tier[0] in i['tiers']]

prop('C01','ranks 1-10; extents 1-16 (rank 1), 1-5, 1-3, 1-2 (ranks 2-4), fixed extents up to 517x389 / 67x1x129 / 9x37x3x41 with any index, extents 1-3 for ranks 5-10; lower corners in +-100000 or wider; all indices in range; element values 64 bit.')
ORD=['C','Fortran','lazy']
for s in range(3):
    for r in range(1,5):
        add('C01','addr-%s-rank%d'%(ORD[s],r),'h_grid_addr.cpp',defs={'STORE':s,'RANK':r,'MAXD':[0,16,5,3,2][r],'FIXD(d)':2},reach=['size'])
        if r>1: add('C01','addr-big-%s-rank%d'%(ORD[s],r),'h_grid_addr.cpp',defs={'STORE':s,'RANK':r,'MAXD':1,'HIDIM':0,'FIXD(d)':[0,0,'(d==0?517:389)','(d==0?67:d==1?1:129)','(d==0?9:d==1?37:d==2?3:41)'][r]},reach=['size'])
        if r<4: add('C01','rw-%s-rank%d'%(ORD[s],r),'h_grid_addr.cpp',defs={'STORE':s,'RANK':r,'RW':1,'ELEM':'uint64_t','MAXD':[0,5,3,2][r],'FIXD(d)':2,'LOB':100000},reach=['rw'])
    for r in range(5,11):
        add('C01','addr-%s-rank%d'%(ORD[s],r),'h_grid_addr.cpp',defs={'STORE':s,'RANK':r,'MAXD':2,'HIDIM':2,'FIXD(d)':'(d%3==2?3:d%3==1?2:1)'})
prop('C02','3 handles, 3 (rank 1) or 2 (rank 2) operations after setup, extents 1-3 (lazy: also 70 preceding resizes up to 200 cells), corners +-1000, all written positions and values.')
for s in range(3):
    for r in (1,2):
        add('C02','hist-%s-rank%d'%(ORD[s],r),'h_grid_hist.cpp',defs={'STORE':s,'RANK':r,'STEPS':2 if r==2 else 3},reach=['assign','resize','copy','destroy','empty'])
add('C02','hist-lazy-shrink','h_grid_hist.cpp',defs={'STORE':2,'RANK':1,'STEPS':2,'SIZES':'{2,5,200}','PREHIST':70},reach=['assign','resize'])
prop('C03','ranks 1-3, extents up to 5/3/2, corners +-1000, all 16-bit cell values, all 9 pairs of storage orders, two element types.')
for s in range(3):
    for s2 in range(3):
        for r in (1,2,3): add('C03','arith-%s-%s-rank%d'%(ORD[s],ORD[s2],r),'h_grid_arith.cpp',defs={'STORE':s,'STORE2':s2,'RANK':r,'MAXD':[0,5,3,2][r]},reach=['fill','arith'])
    add('C03','arith-mixed-type-%s'%ORD[s],'h_grid_arith.cpp',defs={'STORE':s,'RANK':2,'MAXD':2,'OTHER_T':'signed char'},reach=['fill','arith'])
prop('C04','ranks 1-10 with any int/long limits in +-1e6 and any position; iteration: extents 0-7/0-4/0-3/1-2/1-2 for ranks 1-5, any corner.')
for r in range(1,11): add('C04','limits-rank%d'%r,'h_range.cpp',defs={'RANK':r,'MODE':0},reach=['done'])
add('C04','limits-long','h_range.cpp',defs={'RANK':3,'MODE':0,'ELT':'long'},reach=['done'])
for r,m in ((1,7),(2,4),(3,3),(4,2)):
    add('C04','iterate-rank%d'%r,'h_range.cpp',defs={'RANK':r,'MODE':1,'MIND':0 if r<4 else 1,'MAXD':m},reach=['many']+(['empty'] if r<4 else []))
add('C04','iterate-rank5','h_range.cpp',defs={'RANK':5,'MODE':1,'MIND':1,'MAXD':2},reach=['many'])
add('C04','iterate-long','h_range.cpp',defs={'RANK':2,'MODE':1,'ELT':'long','MIND':0,'MAXD':3},reach=['many'])
prop('C05','lengths 1-10 (operators), 1-4 (expressions and comparisons), 1-3 (division); all 32-bit element values.')
for g,nm in ((0,'ops'),(1,'expr'),(3,'compare')):
    for l in (1,2,3,4,5,6,7,8,9,10) if g==0 else (1,2,3,4): add('C05','%s-len%d'%(nm,l),'h_array.cpp',defs={'LEN':l,'GROUP':g},reach=['done'])
for l in (1,2,3): add('C05','divide-len%d'%l,'h_array.cpp',defs={'LEN':l,'GROUP':2,'ELT':'unsigned'},reach=['done'])
add('C05','ops-checked','h_array.cpp',defs={'LEN':3,'GROUP':0,'CHK':'ArrayAssertArgCheck'},reach=['done'])
prop('C06','arrays of length 1-5, grids of rank 1-3, extents up to 4/2/2, any 32-bit index.')
for r in (1,2,3,5): add('C06','array-len%d'%r,'h_check.cpp',shims=['assertthrow'],defs={'RANK':r,'WHAT':0},reach=['outside'])
for w,nm in ((1,'assert'),(2,'debug')):
    for r in (1,2,3): add('C06','grid-%s-rank%d'%(nm,r),'h_check.cpp',shims=['assertthrow'],defs={'RANK':r,'WHAT':w,'MAXD':[0,4,2,2][r]},reach=['outside'])
for r in (1,2): add('C06','subgrid-assert-rank%d'%r,'h_check.cpp',shims=['assertthrow'],defs={'RANK':r,'WHAT':3,'MAXD':[0,3,2][r]},reach=['outside'])
prop('C07','ranks 1-3, base extents up to 5/3/2, any window, corners +-1000, three storage orders, 16-bit values.')
for s in range(3):
    for r,m in ((1,5),(2,3),(3,2)):
        for k,nm in enumerate(('window','move','nested','transform')): add('C07','%s-%s-rank%d'%(nm,ORD[s],r),'h_subgrid.cpp',defs={'STORE':s,'RANK':r,'MAXD':m if k==0 or r!=3 else 2,'MODE':k},reach=['transform' if k==3 else 'window'])
prop('C08','ranks 1-3, 1-5 (rank 1), 1-2 (rank 2) or 1-2 cells (rank 3, in the dimension looked at; thorough: 1-3) and a fixed 1000 cells, ghost width 0-2, corners +-1000, staggered or not, domains with any origin in +-1000 in steps of 1/4 and cell widths 1/4, 3/2, 2, every index, positions in steps of an eighth of a cell; fields built from a size, limits or a range, by construction, resize, copy and assignment.')
for r,m in ((1,5),(2,2),(3,2)): add('C08','field-rank%d'%r,'h_field.cpp',defs={'RANK':r,'MAXN':m},reach=['position'])
for r,m in ((2,3),(3,3)): add('C08','field-more-rank%d'%r,'h_field.cpp',tiers='t',defs={'RANK':r,'MAXN':m},reach=['position'])
add('C08','field-wide','h_field.cpp',defs={'RANK':1,'FIXN':1000},reach=['position'])
add('C08','field-fortran','h_field.cpp',defs={'RANK':2,'MAXN':2,'STORE':1},reach=['position'])
prop('C09','ranks 1-5, corners +-1e6, inner extents up to 1e6, ghost width 1-1000 (not wider than the inner domain); ghost sub-grids: ranks 1-3, inner extents up to 4/3/2, ghost width 1-2.')
for r in range(1,6): add('C09','regions-rank%d'%r,'h_boundary.cpp',defs={'RANK':r},reach=['domains'])
add('C09','regions-range','h_boundary.cpp',defs={'RANK':3,'FROMRANGE':1},reach=['domains'])
for f in (0,1):
    for r in (1,2,3): add('C09','ghostgrid-%s-rank%d'%('field' if f else 'grid',r),'h_boundgrid.cpp',defs={'RANK':r,'FIELD':f,'MAXD':[0,4,3,2][r]},reach=['ghost'])
prop('C10','ranks 1-3, inner extents up to 6/4/2, ghost width up to 3/2/1, corners +-1000, 16-bit cell values.')
for f in (0,1):
    for r in (1,2,3):
        for s in range(3):
            if f and s: continue
            add('C10','serial-%s-%s-rank%d'%('field' if f else 'grid',ORD[s],r),'h_serial.cpp',defs={'STORE':s,'RANK':r,'FIELD':f,'MAXD':[0,6,4,2][r],'MAXDELTA':[0,3,2,1][r]},reach=['exchange','exchange-all','accumulate'])
MPISRC=['src/grid/mpisubdivision.cpp','src/util/factor.cpp','src/util/exceptions.cpp']
def mpi(pid,name,reach,tiers='qt',**d): add(pid,name,'h_mpi.cpp',tiers=tiers,mpi=1,shims=['mpi'],srcs=MPISRC,reach=reach,defs=dict({'INITHOW':0,'REPEAT':0,'MAXPERM':2,'MINP':1},**d))
MPIASM=['message passing is modelled by shim/mpi/mpi.h: reliable in-order mailboxes, processes run until they block (the outcome of these deterministic send-receive pairs does not depend on the schedule), a Cartesian communicator may renumber processes by the permutations listed','the domain has at least as many cells per direction as the process grid needs (one, one ghost width, or for accumulation two ghost widths per process)']
prop('C11','1-6 processes with extents up to 12 (rank 1) and 6x6 (rank 2), 2-8 processes with 2x2x2 (rank 3); 1-8 processes with any extent up to 300 (rank 1), 1-4 with any extents up to 30 (rank 2) without ghost cells; renumbering: identity, reversal, rotation; corners +-1000.',MPIASM)
mpi('C11','partition-rank1',['partition','extent'],RANK=1,MODE=0,MAXP=6,MAXN=12,MAXDELTA=2)
mpi('C11','partition-rank2',['partition','extent'],RANK=2,MODE=0,MAXP=6,MAXN=6,MAXDELTA=1)
mpi('C11','partition-rank3',['partition','extent'],RANK=3,MODE=0,MAXP=8,MAXN=2,MAXDELTA=1,MINP=2,MAXPERM=1)
mpi('C11','partition-range',['partition','extent'],RANK=2,MODE=0,MAXP=3,MAXN=4,MAXDELTA=1,INITHOW=1,MAXPERM=0)
mpi('C11','partition-wide',['partition'],RANK=1,MODE=0,MAXP=8,MAXDELTA=0,SYMN=300,MAXPERM=0)
mpi('C11','partition-wider',['partition'],tiers='t',RANK=1,MODE=0,MAXP=16,MAXDELTA=0,SYMN=3000,MAXPERM=0)
mpi('C11','partition-wide2',['partition'],RANK=2,MODE=0,MAXP=4,MAXDELTA=0,SYMN=30,MAXPERM=0)
prop('C12','1-4 processes, extents up to 8 / 4x4 / 2x2x2, ghost width 1-2, corners +-1000, renumbering; element types short, signed char, int, long, float, double.',MPIASM)
mpi('C12','exchange-rank1',['exchange'],RANK=1,MODE=1,MAXP=4,MAXN=8,MAXDELTA=2)
mpi('C12','exchange-rank2',['exchange'],RANK=2,MODE=1,MAXP=4,MAXN=4,MAXDELTA=1,MAXPERM=1)
mpi('C12','exchange-delta2',['exchange'],RANK=2,MODE=1,MINP=2,MAXP=2,MAXN=4,MAXDELTA=2,MAXPERM=0)
mpi('C12','exchange-rank3',['exchange'],RANK=3,MODE=1,MINP=4,MAXP=4,MAXN=2,MAXDELTA=1,MAXPERM=0)
mpi('C12','exchange-twice',['exchange'],RANK=2,MODE=1,MINP=2,MAXP=3,MAXN=3,MAXDELTA=1,MAXPERM=0,REPEAT=1)
mpi('C12','exchange-fortran',['exchange'],RANK=2,MODE=1,MINP=2,MAXP=4,MAXN=3,MAXDELTA=1,MAXPERM=0,STORE=1)
for t in ('signed char','int','long','float','double'): mpi('C12','exchange-'+t.replace(' ',''),['exchange'],RANK=2,MODE=1,MINP=2,MAXP=2,MAXN=2,MAXDELTA=1,MAXPERM=0,ELEM=t)
prop('C13','accumulation: 1-4 processes, extents up to 8 / 4x4 / 2x4x3, ghost width 1-2; buffers of 0-3 bytes on 1-4 processes; reductions of ints in +-1e6 and all non-NaN doubles on 1-4 processes.',MPIASM)
mpi('C13','accumulate-rank1',['accumulate'],RANK=1,MODE=2,MAXP=3,MAXN=8,MAXDELTA=2,MAXPERM=1)
mpi('C13','accumulate-rank2',['accumulate'],RANK=2,MODE=2,MAXP=4,MAXN=4,MAXDELTA=1,MAXPERM=0)
mpi('C13','accumulate-fortran',['accumulate'],RANK=2,MODE=2,MINP=2,MAXP=2,MAXN=4,MAXDELTA=1,MAXPERM=0,STORE=1)
mpi('C13','accumulate-rank3',['accumulate'],RANK=3,MODE=2,MINP=2,MAXP=2,NLIST='{2,4,3}',MAXDELTA=1,MAXPERM=0)
mpi('C13','accumulate-rank3-all',['accumulate'],tiers='t',RANK=3,MODE=2,MINP=2,MAXP=2,MAXN=4,MAXDELTA=1,MAXPERM=0)
mpi('C13','reduce',['reduce'],RANK=1,MODE=3,MAXP=4,MAXN=4,MAXDELTA=1,MAXPERM=3)
mpi('C13','buffers',['buffer'],RANK=1,MODE=4,MAXP=3,MAXN=4,MAXDELTA=1,MAXPERM=2)
mpi('C13','buffers-rank2',['buffer'],RANK=2,MODE=4,MINP=2,MAXP=4,MAXN=2,MAXDELTA=1,MAXPERM=0)
prop('C14','1 dimension: up to 200 processes, extents up to 1000; 2: up to 36 processes, extents up to 24; 3: up to 16 processes, extents up to 6.')
add('C14','two-symbolic','h_factor.cpp',srcs=['src/util/factor.cpp'],defs={'NF':2,'SYMP':1,'MAXP':16,'MAXW':8},reach=['done'])
add('C14','one','h_factor.cpp',srcs=['src/util/factor.cpp'],defs={'NF':1,'SYMP':1,'MAXP':200,'MAXW':1000},reach=['done'])
add('C14','two','h_factor.cpp',srcs=['src/util/factor.cpp'],defs={'NF':2,'MAXP':36,'MAXW':24},reach=['done'])
add('C14','three','h_factor.cpp',srcs=['src/util/factor.cpp'],defs={'NF':3,'MAXP':16,'MAXW':6},reach=['done'])
prop('C15','0-3 elements of three element types, two successive packings, three container kinds.')
for e in range(3): add('C15','elem%d'%e,'h_databuffer.cpp',defs={'EL':e,'MAXN':3},reach=['data','empty'])
PARSESRC=['src/parser/parser.cpp','src/parser/deckscanner.cpp','src/parser/parsertoken.cpp','src/variables/variables.cpp','src/variables/dependencies.cpp','src/variables/block.cpp','src/variables/blockparameters.cpp','src/variables/blockclasses.cpp','src/util/exceptions.cpp']
DEPSRC=['src/variables/variables.cpp','src/variables/dependencies.cpp','src/variables/blockparameters.cpp','src/util/exceptions.cpp']
PARSEASM=['the stream a deck is read from is a text in memory; conversions between numbers and text (boost::lexical_cast) are modelled by shim/common/boost/lexical_cast.hpp; pow and other libm functions are uninterpreted functions (results are compared as terms), evaluated by the host libm in the replay']
prop('C16','expressions of up to 4 operands (5 in the thorough tier), int/float/string parameters and literals, every operator combination of the listed templates, parentheses and signs; int parameters in +-100, any double.',PARSEASM)
def ex(name,t,kinds,ops,reach,tiers='qt',**d): add('C16',name,'h_expr.cpp',tiers=tiers,srcs=PARSESRC,reach=reach,defs=dict({'TEMPLATE':'"%s"'%t,'KINDS':'"%s"'%kinds,'OPS':'"%s"'%ops},**d))
ex('pair','SoxSo','abfgijk','+-*/^',['int','float','zero'])
ex('triple-addsub','oxoxo','afj','+-',['int','float'])
ex('triple-muldiv','oxoxo','afj','*/',['int','float','zero'])
ex('triple-mixed','oxoxo','af','+*/^',['int','float'])
ex('nested','Sox(Soxo)','af','-/',['int','float'])
ex('leading','S(oxo)xo','af','-*',['int','float'])
ex('quad','oxoxoxo','af','-/',['int','float'])
ex('deep','((o)x((Soxo)))','af','-',['int','float'])
ex('strings','oxoxo','saijkt','+',['string'],STRPAR=13)
ex('triple-all','oxoxo','abfgk','+-*/^',['int','float'],tiers='t')
ex('nested-all','Sox(Soxo)','abfk','+-*/^',['int','float'],tiers='t')
ex('quad-all','oxoxoxo','af','+-*/',['int','float'],tiers='t')
ex('five','oxoxoxoxo','af','-*',['int','float'],tiers='t')
prop('C17','two variables with every dependency graph and source, three variables (graphs without and with cycles, 3-5 kinds of source), thorough tier: four variables in six orders; two rounds of updates, every value in +-1000; 29 fixed decks whose expressions use every operator, sign, conversion, function arguments and variables of other blocks.')
def dp(name,tiers='qt',reach=('updated',),**d): add('C17',name,'h_deps.cpp',tiers=tiers,srcs=DEPSRC,reach=list(reach),defs=d)
dp('two',NV=2,SRCS=5,reach=['updated','cycle'])
for m in range(4): dp('three-%d'%m,NV=3,SRCS=4,M0=2*m,reach=['updated','cycle'] if m else ['updated'])
add('C17','expressions','h_depexpr.cpp',srcs=PARSESRC+['src/variables/function_expression.cpp'],reach=['int','float','string'])
for m in range(4): dp('three-all-%d'%m,tiers='t',NV=3,SRCS=5,M0=2*m)
for k in range(6): dp('four-%d'%k,tiers='t',NV=4,SRCS=2,ACYCLIC=k)
prop('C18','decks with up to three (thorough: five) statements in up to three blocks, every choice of block names, declarations, assignments and references of the listed kinds; int values +-1000; conversions: any int in +-1e6, any double in +-1e6, listed texts.',PARSEASM)
def scp(name,t,slots,reach=('ok','error'),tiers='qt',**d): add('C18',name,'h_scope.cpp',tiers=tiers,srcs=PARSESRC,reach=list(reach),defs=dict({'TEMPLATE':'"%s"'%t,'SLOTS':'"%s"'%slots},**d))
scp('one-block','?N?}?','012345678')
scp('flat','????','134827',['ok','error','circular'])
scp('nested','?N?N?}','12345c')
scp('siblings','N?}N?}?','123567')
scp('inner','NN?}?}?','15c62')
scp('around','N?N?}?}','15380')
scp('errors','?N?}?','rudi1970')
scp('unbalanced','?N?}}','179',['error'])
scp('deep','?N?N?}?}?','13520',tiers='t')
scp('three','N?}N?}N?}?','13560',tiers='t')
scp('deeper','N?N?N?}}}?','135c6',tiers='t')
add('C18','types','h_assign.cpp',srcs=PARSESRC,reach=['int','float','string','mismatch','nocast'])
BLOCKSRC=PARSESRC+[s for s in ['src/variables/block.cpp','src/variables/blockclasses.cpp'] if s not in PARSESRC]
prop('C19','decks with three (thorough: four) blocks in every listed nesting, each of one of two registered classes or without class, with or without root class, parameters set or not; initialisation started from each of the first four blocks; every table of allowed children for decks with two blocks.',PARSEASM)
def blk(name,t,reach=('ok',),tiers='qt',**d): add('C19',name,'h_blocks.cpp',tiers=tiers,srcs=BLOCKSRC,reach=list(reach),defs=dict({'TEMPLATE':'"%s"'%t},**d))
blk('nested','NN}N}}')
blk('row','N}N}N}')
blk('chain','NNN}}}')
blk('two','NN}}N}')
blk('restrict','N}N}',['ok','rejected'],RESTRICT=1)
blk('restrict-nested','NN}}',['ok','rejected'],RESTRICT=1)
blk('four','NN}N}}N}',tiers='t')
blk('four-chain','NNNN}}}}',tiers='t')
blk('four-mixed','N}NN}}N}',tiers='t')
prop('C20','trees of four blocks of every shape, names from a set of two, each block publishing nothing, an int or a pointer; five keys; all values in +-1e6.')
for k,sh in enumerate(('{0,0,0}','{0,0,2}','{0,1,0}','{0,1,1}','{0,1,2}')): add('C20','tree%d'%k,'h_data.cpp',srcs=['src/variables/block.cpp']+DEPSRC,reach=['pointer','object','missing']+(['ambiguous'] if k!=4 else []),defs={'SHAPE':sh})
prop('C21','three scalar parameters of int, float and string type, each required, defaulted, read-only or constant, assigned a constant, an expression or nothing; arrays of rank 1-6; groups of up to four parameters; every int in +-1000 and every double.',PARSEASM)
add('C21','scalars','h_params.cpp',srcs=PARSESRC,defs={'KIND':0},reach=['ok','missing','readonly'])
for r in (1,2,3,6): add('C21','array-rank%d'%r,'h_params.cpp',srcs=PARSESRC,defs={'KIND':1,'RANK':r},reach=['ok','missing'])
add('C21','groups','h_params.cpp',srcs=PARSESRC,defs={'KIND':2},reach=['ok'])
prop('C22','every text of up to two (thorough: three) bytes, and in 36 contexts (inside numbers, names, keywords, strings, comments) followed by every one (thorough: two) bytes; texts placed across the first and second boundary of the 128-byte buffer; names, numbers, strings and comments of up to 520 characters.',PARSEASM)
def scn(name,pre,n,reach=('tokens',),tiers='qt',**d):
    q=lambda x:'"%s"'%x.replace('\\','\\\\').replace('"','\\"').replace('\n','\\n')
    for k in ('SUFFIX','START'):
        if k in d: d[k]=q(d[k])
    add('C22',name,'h_scan.cpp',tiers=tiers,srcs=PARSESRC,reach=list(reach),defs=dict({'PREFIX':'{'+','.join(map(q,pre))+'}','NSYM':n},**d))
SCTX=['1','1.','1e','1e+','1.5','1.5e-','.','.5','a','a:','e','E','e1','in','int','intege','floa','doubl','rea','strin','_','x\n','+','*','5 ']
SOPEN=["'","'a","'\\",'"','"\\\\','/','//','//x','/*','/* *','"\n','/*\n*']
scn('any2',[''],2,['tokens','error'])
scn('contexts',SCTX,1,['tokens','error'])
scn('contexts-then',SCTX,1,['tokens','error'],SUFFIX='5 y')
scn('open',SOPEN,1,['tokens','error'])
scn('open-closed',SOPEN,1,['tokens','error'],SUFFIX='\' y"*/\nz')
scn('boundary',['12.5e','/* x',"'ab",'name','int'],1,['tokens','error'],PADLO=121,PADHI=128,SUFFIX='1\'*/\nz')
scn('boundary2',['e','/*','"\\'],1,['tokens','error'],PADLO=250,PADHI=257,SUFFIX='1"*/\nz',FILL="'\\n'")
for k,(st,fl,pre) in enumerate((('','a','a'),('','7','.'),("'",'b','\\'),('/*','*','x'),('//','/','y'))):
    scn('long%d'%k,[pre],1,['tokens'],START=st,FILL="'%s'"%fl,PADLO=123,PADHI=129,SUFFIX="\n1 z" if k==4 else "\n1'*/\nz")
    scn('longer%d'%k,[pre],1,['tokens'],START=st,FILL="'%s'"%fl,PADLO=252,PADHI=256,SUFFIX="\n1 z" if k==4 else "\n1'*/\nz")
    scn('longest%d'%k,[pre],2,['tokens'],tiers='t',START=st,FILL="'%s'"%fl,PADLO=500,PADHI=520,SUFFIX="\n1 z" if k==4 else "\n1'*/\nz")
scn('any3',[''],3,['tokens','error'],tiers='t')
scn('contexts2',SCTX,2,['tokens','error'],tiers='t')
scn('open2',SOPEN,2,['tokens','error'],tiers='t',SUFFIX='\' y"*/\nz')
FUNCSRC=PARSESRC+['src/variables/function_expression.cpp']
prop('C23','every cmath and utility function of the library (not gamma, digamma and Bessel functions) with any arguments; six user function signatures with 0-4 arguments of every type.',PARSEASM)
for a,b in ((0,6),(7,13),(14,18),(19,24)): add('C23','library%d'%a,'h_func.cpp',srcs=FUNCSRC,defs={'MODE':0,'LO':a,'HI':b},reach=['value','count'])
add('C23','user','h_func.cpp',srcs=FUNCSRC,defs={'MODE':1},reach=['value','count','unknown'])
prop('C24','ranks 1-3, 1-3 cells, ghost width 0-1, corners +-100, staggered or not, origins in +-10 in steps of 1/4, expressions with an intermediate variable and an int parameter in +-20 (+-4 for ranks 2, 3), every cell.',PARSEASM)
for m,nm in enumerate(('dependent','prepared','filler')):
    for r in (1,2,3): add('C24','%s-rank%d'%(nm,r),'h_fill.cpp',srcs=PARSESRC,defs={'MODE':m,'RANK':r},reach=['filled'])
prop('C25','two diagnostics of each kind, four (thorough: six) calls of execute; intervals 1-7, time steps from 0, 1 or 97 with skips; physical times, delays and intervals in multiples of 1/8 up to 4; four file names; appending or not, master or not; every combination of set times and diagnostics being destroyed.',PARSEASM[:1])
DIAGSRC=BLOCKSRC+['src/diagnostic/diagnostic.cpp']
def dg(name,reach,tiers='qt',**d): add('C25',name,'h_diag.cpp',tiers=tiers,srcs=DIAGSRC,defs=d,reach=reach)
dg('interval',['interval'],MODE=0,STEPS=4)
dg('interval-names',['interval'],MODE=0,STEPS=2,NAMES=1)
dg('delta',['delta'],MODE=1,STEPS=4)
dg('delta-names',['delta'],MODE=1,STEPS=2,NAMES=1)
dg('adjust',['adjust'],MODE=3)
dg('manager',['executed','missing'],MODE=2)
dg('interval-long',['interval'],tiers='t',MODE=0,STEPS=6)
dg('delta-long',['delta'],tiers='t',MODE=1,STEPS=6)
prop('C26','ranks 1-3, one to three simulated processes, global extents up to 4, any origin in +-100 (rank 1), ghost cells 0-1 (fields 0-2), every division of the grid along a dimension for writing and every other one for reading, three data sets per file with any naming, up to three attributes; sequences of five (parallel: four) operations on two streams; two or three outputs with any set of active processes; 32 and 64 bit element values symbolic',['HDF5 and MPI are models (shim/hdf, shim/mpi): files in memory, collective calls of HDF5 have to be made by all processes of the communicator, as its documentation requires; names of data sets are formatted by a plain formatter instead of std::ostringstream'])
HDFSRC=DIAGSRC+['src/diagnostic/hdfdiagnostic.cpp']
def hd(name,reach,tiers='qt',par=2,**d): add('C26',name,'h_hdf.cpp',tiers=tiers,srcs=HDFSRC,hdf=par,mpi=1 if par==2 else 0,shims=['hdf','mpi'],defs=d,reach=reach)
hd('parallel-rank1',['round trip'],MODE=0,RANK=1,MAXP=3,MAXN=4)
hd('parallel-rank2',['round trip'],MODE=0,RANK=2,MAXP=2,MAXN=3,MINN=2,ELEM='double',LEAN=1)
hd('parallel-rank2-full',['round trip'],tiers='t',MODE=0,RANK=2,MAXP=3,MAXN=3)
hd('parallel-rank3',['round trip'],MODE=0,RANK=3,MAXP=2,MAXN=2,MINN=2,ELEM='float',LEAN=1)
hd('parallel-rank3-full',['round trip'],tiers='t',MODE=0,RANK=3,MAXP=2,MAXN=2)
hd('serial-rank1',['round trip'],par=1,MODE=1,RANK=1,MAXN=3)
hd('serial-rank2',['round trip'],par=1,MODE=1,RANK=2,MAXN=3,MINN=2,ELEM='double')
hd('streams-out',['streams'],par=1,MODE=2,STEPS=5)
hd('streams-in',['streams'],par=1,MODE=2,STEPS=5,INPUT=1)
hd('streams-out-parallel',['streams'],MODE=2,STEPS=4)
hd('active',['active'],MODE=3,MAXP=3,MAXN=3,ROUNDS=2,READ=1)
hd('active3',['active'],MODE=3,MAXP=2,MAXN=2,ROUNDS=3,READ=1)
hd('diagnostic-field',['diagnostic'],MODE=4,RANK=2,MAXN=2,FIELD=1,ELEM='double')
hd('diagnostic-grid',['diagnostic'],par=1,MODE=4,RANK=1,MAXN=3)

prop('C27','arrays of length 1-6; grids of rank 1-5 with extents 1-3 (rank 1: any origin in +-100); 32 bit and 64 bit element values symbolic; file diagnostics over four time steps',['numbers given to a stream are compared as values: the digits that the standard library prints are not examined; text files are recorded by the stand-ins of harness/textout_rt.cpp'])
def tx(name,reach,tiers='qt',srcs=(),**d): add('C27',name,'h_text.cpp',tiers=tiers,srcs=DIAGSRC+['textout_rt.cpp'],defs=d,reach=reach,cflags=['-fno-inline'])
tx('array-int',['array'],MODE=0)
tx('array-double',['array'],MODE=0,ELEM='double')
for r in range(1,6): tx('grid-rank%d'%r,['grid'],MODE=1,RANK=r,MAXN=[0,5,3,2,2,2][r])
tx('grid-rank2-fortran',['grid'],MODE=1,RANK=2,MAXN=3,STORAGE='SingleArrayGridStorageFortran',ELEM='double')
tx('file',['file'],MODE=2)

prop('C28','references with all 27 fields, or all but one, or one only, of one or two symbolic letters each; every publication type and every constructor with 0-3 or all of its optional arguments; histories of up to 3 additions to the manager with one free letter per key and per description',['values are words of capital letters (braces, commas and backslashes in a value are not escaped by the library, and not claimed)','text is recorded by the stand-ins of harness/textout_rt.cpp; native replays use the real streams'])
def lt(name,reach,tiers='qt',**d): add('C28',name,'h_lit.cpp',tiers=tiers,srcs=['src/tools/literature.cpp','textout_rt.cpp'],defs=d,reach=reach,cflags=['-fno-inline'])
lt('entries',['entry'],MODE=0)
lt('constructors',['constructor'],MODE=1)
lt('manager-bibtex',['bibtex'],MODE=2,ADDS=2)
lt('manager-information',['information'],MODE=3,ADDS=2)
lt('manager-bibtex3',['bibtex'],tiers='t',MODE=2,ADDS=3)
lt('manager-information3',['information'],tiers='t',MODE=3,ADDS=3)

prop('C29','integers and doubles in +-1000; means of 1-3 (thorough: 1-4) integral values in +-500; any results of rand(); ranges of irand up to 2^31-1',['rand() is replaced by any value between 0 and RAND_MAX; the distribution of the numbers is not claimed'])
def nu(name,reach,tiers='qt',**d): add('C29',name,'h_num.cpp',tiers=tiers,srcs=['src/functions.cpp'],defs=d,reach=reach)
for t in ('int','double'): nu('minmax-'+t,['minmax'],MODE=0,ELEM=t)
nu('cross-int',['cross'],MODE=1)
nu('mean',['mean'],MODE=2,MAXN=3)
nu('mean4',['mean'],tiers='t',MODE=2,MAXN=4)
nu('drand',['drand'],MODE=3)
nu('irand',['irand'],MODE=4,MAXRANGE=2147483647)

prop('C31','decks of up to 10 tokens that start with one of 22 beginnings (statements, declarations, blocks, expressions, calls, exponents) followed by up to 2 (thorough: 3) tokens of any of the 19 kinds, each token on its own line; eleven kinds of mistakes other than syntax errors after up to two other statements, comments or blank lines, inside or outside a block.',PARSEASM)
def gr(name,w,reach,tiers='qt',**d): add('C31',name,'h_grammar.cpp',tiers=tiers,srcs=PARSESRC,reach=list(reach),defs=dict({'WHAT':w},**d))
for k in range(0,22,2): gr('grammar-%d'%k,0,['syntax'],LO_=k,HI_=k+1,FREE=2,tiers='q')
for k in range(22): gr('grammar3-%d'%k,0,['syntax'],LO_=k,HI_=k,FREE=3,tiers='t')
gr('mistakes',1,['reported'])
prop('C30','ranks 1-3 (iteration: 1-6), extents 1-4/1-2/1-2, corners in +-1000, both layouts; histories of 3 operations (thorough: 4) on three grids; loop iterations run forwards, backwards and in column order',['Kokkos itself is replaced by the model of shim/kokkos/Kokkos_Core.hpp (host memory, sequential loops in several orders): device memory and truly parallel loops are not examined'])
def kk(name,reach,tiers='qt',**d): add('C30',name,'h_kokkos.cpp',tiers=tiers,defs=dict(dict(LEFT=0),**d),reach=reach,shims=['kokkos'],kokkos=True)
for r,n in ((1,4),(2,2),(3,2)): kk('access-rank%d'%r,['access'],MODE=0,RANK=r,MAXN=n)
kk('access-left',['access'],MODE=0,RANK=2,MAXN=2,LEFT=1)
kk('history-rank1',['assign','resize','write','copy','destroy','empty'],MODE=1,RANK=1,STEPS=3,MAXN=3)
kk('history-rank2',['assign','resize','write','copy','destroy','empty'],MODE=1,RANK=2,STEPS=2,MAXN=3)
kk('history-long',['assign','resize','write','copy','destroy','empty'],tiers='t',MODE=1,RANK=2,STEPS=3,MAXN=3)
for r,n in ((1,6),(2,3),(3,2),(4,2),(5,2),(6,2)): kk('iteration-rank%d'%r,['iteration'],MODE=2,RANK=r,MAXN=n)
