import json,re,glob,os
V='/verif'
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
RULE={}
for p in P:
    s=open(f'{V}/harness/{p["id"].lower()}.cpp').read()
    RULE[p['id']]=re.search(r'vf_rule = "(.*?)";',s).group(1)
D={
'C01':('ASan/UBSan + model and GDAL-side readback monitor','two oracles: GDAL itself reading the file cell by cell, and the library reading it back, both against the model grid; bit equality (NaN payload aside)','C01 needs every type x storage mode x location x no-data combination: sparse tiles, no-data written as text, 64-bit no-data and the compact storage only diverge for particular values'),
'C02':('ASan/UBSan + independent strict grid parser','a strict parser written from the format, plus the library reading its own file; six-digit comparison done on decimal text','the header and the cells are printed by different code paths per type; only particular magnitudes lose digits'),
'C03':('ASan/UBSan + three-valued reference reader over generated and damaged texts','a reference reader that answers load-exactly, refuse, or only-do-not-crash; hangs are caught by the watchdog and believed only after a second run alone','texts are an unbounded input space; tests only read two well-formed files'),
'C04':('ASan/UBSan(+float-cast) + exact conversion oracle on the file read by GDAL','long-double/int128 conversion rules decide refuse or exact value per cell; GDAL reads the file','10x11 type pairs, values at the limits of each'),
'C05':('ASan/UBSan + geometric placement model','a model that places the centre of each mask cell in the source; cells whose centre lies within 1e-6 cell of an edge are not generated','relative positions of two grids, their resolution, no-data patterns and modes multiply'),
'C06':('ASan/UBSan + addressing model','row-major enumeration of the model grid; every cell is asked through each addressing and back','whole grid, all addressings and hostile arguments per raster'),
'C07':('ASan/UBSan + per-layer placement model','per layer the placement model of C05 against the first layer; written files read without the library','layers with different extents/types/no-data and order'),
'C08':('ASan/UBSan + long double recomputation after every edit','long double recomputation over the valid cells; tolerance scaled by magnitude of the data','histories of edits and queries (staleness), any thread count'),
'C09':('ASan/UBSan + partition monitor and file readback','partition model (each valid cell in exactly one subset), tightest block, files parsed independently','conservation over whole decompositions for arbitrary zone shapes and storage modes'),
'C10':('ASan/UBSan + table model over files read independently','zone table applied to the model; files parsed independently','tables x grouping x layers x outputs'),
'C11':('ASan/UBSan + member-by-member state comparison, aliasing by later edits','full observable state of source and copy compared, then one is mutated or destroyed and the other compared again','aliasing shows only after later operations on one of the two, or under ASan'),
'C12':('ASan/UBSan + edit-history model','a vector model of all layers, compared in full after each edit','histories; edits must touch nothing else'),
'C13':('ASan, UBSan, leak accounting, libstdc++ assertions and Valgrind memcheck over random operation histories','sanitizers; live heap bytes before/after each history (confirmed over a longer run before a leak is believed); memcheck for uninitialised reads','temporal memory errors need sequences of operations over several objects sharing masks and positions'),
'C14':('ThreadSanitizer over an instrumented OpenMP shim with injected delays + differential runs over thread counts','TSan (happens-before through the shim), and equality of everything observable between one thread and 2-8','schedules: the shim adds random delays at loop chunks, criticals and barriers'),
'C15':('ASan/UBSan + fault injection in files and system calls, differential oracle','GDAL/strict reader on the same damaged file decides what a successful load must hold; an undisturbed write decides what a successful write must leave','crash points: every cut offset, RLIMIT_FSIZE at any byte, EIO on the n-th read, permission, full device'),
'C16':('ASan/UBSan builds of the tool (without and with MongoDB), product monitor','every product (file, or GridFS file held by an in-process database server) parsed without the library against a model; directory listing and database content before/after','option combinations; exit status and products together'),
'C17':('ASan/UBSan/LSan + in-process document-database server as ground truth and fault injector','the stored chunks and metadata in the server\'s own memory, then readback; faults at chosen commands','no server is available to the tests at all; they never run this code'),
'C18':('ASan/UBSan/LSan + in-process document-database server as ground truth and fault injector','a multiset model of stored files against the server\'s memory after each operation','histories with overlapping names/metadata and faults at any command'),
'C19':('ASan/UBSan(+float-cast) + typed-value model','the value that was put in decides each accessor\'s answer','kinds x accessors x magnitudes x time zones'),
'C20':('ASan/UBSan + reference recogniser','strtod/strtoll grammar re-implemented, exact int128 ranges','all texts'),
'C21':('ASan/UBSan + character-level model','character-by-character models','all texts'),
'C30':('ASan/UBSan/LSan + map, log and address models','a map model after each merge, the log and array files parsed character by character, a grammar of addresses, omp_get_max_threads','all texts, histories of merges and messages'),
'C22':('ASan/UBSan + independent calendar model','days-from-civil arithmetic','all instants 1900-9999, walks of every day of a year'),
'C23':('ASan/UBSan + independent time-zone rule evaluation','own evaluation of POSIX TZ rules in 18 zones','seconds around each change'),
'C24':('ASan/UBSan + independent calendar and zone model','calendar and zone models','instants x zones x amounts'),
'C25':('ASan/UBSan + lexical and realpath model','lexical model plus stat identity of the named file','path shapes x existing/absent x links'),
'C26':('ASan/UBSan + whole-tree snapshots as an unprivileged user','snapshot (names, types, contents, link targets, modes) of everything below and beside the path before/after','tree shapes x operations, entry-type-less readdir'),
'C27':('ASan/UBSan + independent line splitter','own splitting of the same bytes','all file contents'),
'C28':('ASan/UBSan + live-heap accounting','element-wise comparison after the source is destroyed and heap accounting','sizes x types x thread counts'),
'C29':('ASan/UBSan(+float-cast) + long double oracle','long double/libm with error bounds of the statement','all arrays and arguments'),
}
COST=json.load(open('/tmp/w/cost.json')) if os.path.exists('/tmp/w/cost.json') else {}
out=open(V+'/tools/design_head.md').read()
out+='\n## The properties one by one\n\nFor each: what is driven and observed (this text is also the `rule` field of the evidence), the oracle, and why tests cannot settle it. Quick and thorough differ in the number of cases only (see `bin/props.py`); nothing is exhaustive, and the level of all checks is `exploration`: "held on the executions observed".\n'
for p in P:
    i=p['id']; d=D[i]
    out+=f"\n### {i} {p['title']}\n\n*Method:* {d[0]}. *Workload and observation:* {RULE[i]}\n\n*Oracle:* {d[1]}. *Beyond the tests:* {d[2]}."
    if i in COST: out+=f" *Quick run:* {COST[i]}."
    out+='\n'
out+=open(V+'/tools/design_tail.md').read()
sd=sorted(glob.glob(V+'/seeded/*/meta.json'))
res=json.load(open('/verif/tools/seedres.json')) if os.path.exists('/verif/tools/seedres.json') else {}
out+='\n## Planted bugs and what catches them\n\nEach was written from the property and the code, confirmed to build, pass the 99 tests and fail its demonstration, then tried against the check (`tools/seedtest.py --check`).\n\n| bug | property | needs | caught by its check |\n|---|---|---|---|\n'
for m in sd:
    k=m.split('/')[-2]; d=json.load(open(m))
    out+=f"| {k} | {d['property']} | {d['needs']} | {res.get(k,'')} |\n"
open(V+'/DESIGN.md','w').write(out)
T={i:{'technique':d[0],'note':'Held on the executions generated (counts and distinct cases in the evidence file); oracle: '+d[1]+'. Nothing is claimed about inputs, histories or schedules not driven.'} for i,d in D.items()}
json.dump(T,open(V+'/tools/techniques.json','w'),indent=1)
