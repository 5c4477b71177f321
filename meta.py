#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 meta.py  rewrites both."""
import json, os, props
V=os.path.dirname(os.path.abspath(__file__))
P=[]; NA=[]
def p(id,title,statement,over,quant,tests,files,mech,observe=None,note=''):
    a={'files':files,'mechanism':[{'name':m,'where':files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    if observe: a['observe_at']=[observe]
    P.append((dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':quant},why_tests_cant=tests,anchors=a),note))
G='src/grid/'; S=G+'gridstorage/'; VV='src/variables/'
p('C01','A grid index addresses one cell of the allocated block, in storage order',
  'For a grid of any rank, shape, lower corner and storage order, every index inside the grid\'s limits denotes a distinct cell inside the storage the grid allocated, laid out in the documented (row-major or column-major) order. All ways of writing the index (index array, separate integers, array expression; reading or writing) denote the same cell, and a value written to one cell is read back from it and changes no other cell. The reported limits, extents and number of cells agree with what was asked for.',
  ['inputs','configurations'],'every rank 1-10, every extent, every lower corner (negative included), every index in range, each of the three single-block storage orders, every cell value',
  'The grid tests sample random shapes of ranks 1-10 and the lazy storage is never instantiated; the addresses of the corner indices of every shape are never compared with the layout or the size of the allocation.',
  [S+'single-array-storage-base.hpp',G+'grid.t',S+'single-array-allocation.hpp',G+'gridstorage.hpp',G+'grid.hpp'],['index-to-offset computation of the storage policies','call operators for ranks 1-10','allocation size in resize'],'addresses of cells, getLo/getHi/getDims/getSize')
p('C02','Copied and assigned grids share data; resizing and destroying are safe',
  'Grids that were copy-constructed or assigned from one another show the same cells and the same shape, whichever of them is written or resized later, and unrelated grids never share cells. In every sequence of constructing, copying, assigning, resizing, writing and destroying grids, each remaining grid has storage for all of its cells, nothing is freed while in use, and nothing is freed twice.',
  ['histories','inputs'],'every sequence of up to three operations on up to three handles (plus long resize histories for the lazy storage), all sizes, corners and written positions in bounds',
  'Tests copy or resize a grid once; aliasing, re-assignment and destruction orders are histories.',
  [S+'single-array-allocation.hpp',S+'single-array-storage-base.hpp',G+'grid.hpp'],['shared grid data with registered observers','update of every handle when the data is resized','deferred shrinking of the lazy storage'],'cell values and raw pointers through every live handle')
p('C03','Filling, adding and subtracting grids touches every cell exactly once',
  'Assigning a value to a grid sets every cell; adding or subtracting another grid of the same shape combines the cells with equal index, whatever the storage orders and element types of the two grids, and leaves the right-hand grid and both shapes unchanged. Iterating over a grid\'s storage visits each cell exactly once.',
  ['inputs','configurations'],'every pair of storage orders, ranks 1-3, every shape and corner in bounds, every cell value',
  'The arithmetic tests use one storage order on both sides and random values of a few shapes.',
  [G+'grid.hpp',S+'single-array-storage-base.hpp',G+'grid.t'],['element-wise operators over iterators','storage iterators'],'cell values after the operation')
p('C04','Ranges contain and visit exactly the positions between their limits',
  'A range reports the limits it was given, contains a position exactly when every coordinate lies between the limits (inclusive), and growing, shrinking or copying it moves exactly the limits asked for. Iterating over it visits every contained position exactly once and nothing else; an empty range visits nothing.',
  ['inputs'],'every rank 1-10, all limits and positions for containment and limits; every extent in bounds (zero included), any corner, for iteration',
  'Tests iterate over a handful of fixed ranges; empty ranges and high ranks are not covered.',
  [G+'range.hpp'],['limit arithmetic','odometer-style iterator'],'positions produced by iteration, inside()')
p('C05','Array arithmetic, comparison and expressions act element by element',
  'Element access, construction, fill, arithmetic (with arrays, scalars and nested lazy expressions), sums, products, projections and comparisons of fixed-length arrays give the element-wise result for all values and lengths, evaluate each operand as it is at the time of evaluation, and change no operand that is not being assigned.',
  ['inputs'],'lengths 1-10, every element value',
  'Tests use random doubles per length; integer wrap-around, ordering corner cases and aliasing of operands are not explored.',
  [G+'array.hpp',G+'array.t',G+'arrayexpression.hpp'],['expression templates','compound assignment','comparison functors'],'array elements after the operation')
p('C06','Checked grids and arrays reject exactly the out-of-range indices',
  'With a checking policy, accessing an index outside the limits is reported (by an assertion, or by an exception for the throwing policy) before any memory is touched, and no index inside the limits is ever reported. The debugging policy redirects the access to the nearest cell instead and records the error, the offending index and its dimension.',
  ['inputs','configurations'],'every index (any integer), any limits, ranks 1-5',
  'A test that triggers the assertion aborts; the tests only use valid indices.',
  [G+'gridcheck.hpp',G+'arraycheck.hpp',G+'grid.t'],['assert/throw checking policies'],'assertion or exception raised by the access')
p('C07','Sub-grids and transformed grids are exact views of their base grid',
  'A sub-grid denotes exactly the base-grid cells of its window: reading, writing, iterating (each window cell once) and windows of windows all act on those cells and on no others, before and after the window is moved. A transformed grid shows, for every cell and in iteration, the transformation of the current base cell, with the base grid\'s limits.',
  ['inputs','histories'],'every base shape and corner, every window inside it, every move, every cell and value in bounds',
  'There are no tests of either class (neither could be instantiated).',
  [G+'subgrid.hpp',G+'subgrid.t',G+'gridtransform.hpp',G+'gridtransform.t'],['window iterator over a range','index forwarding to the base grid'],'cell addresses and values')
p('C09','Ghost, source and inner regions of a domain tile it consistently',
  'For a domain with ghost cells, the lower and upper ghost regions and the inner region tile the domain along each dimension, the source regions are inner cells and are the periodic images of the opposite ghost regions, and the boundary regions follow the staggering of the field. Ghost sub-grids obtained for a grid or field show exactly those cells.',
  ['inputs'],'every domain, ghost width and dimension for which the inner domain is at least one ghost width wide, ranks 1-5, every position',
  'There are no tests of these regions.',
  [G+'boundary.hpp',G+'boundary.t'],['range arithmetic for ghost, source and boundary domains'],'ranges returned, cells of the ghost sub-grids')
p('C10','Single-process exchange and accumulation are periodic',
  'With a single process, after exchanging (one dimension or all) every ghost cell, corners included, holds the value of the inner cell it periodically mirrors, and inner cells are unchanged. After accumulating, every cell holds the sum over its periodic images. The reported domains, the reductions and the process queries are those of one process owning the whole domain.',
  ['inputs','configurations'],'ranks 1-3, every shape with at least one (accumulation: two) ghost widths of inner cells, ghost widths 1-3, any corner, every cell value, grids and fields',
  'There are no tests of the subdivisions.',
  [G+'domainsubdivision.hpp',G+'domainsubdivision.t'],['ghost/source copy loops'],'grid cells after exchange/accumulate')
p('C11','A parallel decomposition gives every cell to exactly one process',
  'For every number of processes, domain (any corner) and numbering of the processes chosen by the message-passing layer, every cell of the global domain is an inner cell of exactly one process and no cell outside is; local domains are the inner domains plus the ghost cells; the pieces differ by at most one cell per direction; and unique ids, boundary flags, master flag and process numbers are consistent. Physical extents of adjacent pieces abut exactly.',
  ['inputs','configurations'],'1-8 processes, ranks 1-3, every domain in bounds with enough cells for the process grid, every corner, several renumberings',
  'There are no tests that use message passing.',
  [G+'mpisubdivision.hpp',G+'mpisubdivision.t','src/util/factor.cpp',G+'domainsubdivision.hpp'],['piece boundaries computed independently by each process','Cartesian communicator'],'domains reported on each process')
p('C12','After a parallel exchange every ghost cell holds its neighbour\'s value',
  'After all processes exchange a grid (one dimension or all), every ghost cell of every process, corners included, holds the value that the process owning the mirrored cell has for it, with periodic wrap-around, and inner cells are unchanged; no message is lost, mismatched or left over, no process waits for ever, and repeating the exchange changes nothing.',
  ['inputs','configurations','schedules'],'1-4 processes, ranks 1-3, every domain in bounds, ghost widths 1-2, renumbered processes, element types of every message type, every cell value',
  'There are no tests that use message passing.',
  [G+'mpisubdivision.t',G+'mpisubdivision.cpp',G+'boundary.t'],['pack / sendrecv / unpack per dimension and direction','message types per element type'],'grid cells on each process, messages exchanged')
p('C13','Parallel accumulation, buffer exchange and reductions combine all processes',
  'After a parallel accumulation every cell on every process holds the sum over all of its images on all processes. Exchanging variable-size buffers delivers to each process exactly the bytes its neighbour in the given direction sent. Sum, average, maximum and minimum reductions give every process the combination of all processes\' values.',
  ['inputs','configurations','schedules'],'1-4 processes, ranks 1-3, every domain in bounds, buffer sizes 0-3 per process, every value, renumbered processes',
  'There are no tests that use message passing.',
  [G+'mpisubdivision.t'],['two-phase ghost addition','size-then-data buffer exchange','allreduce wrappers'],'cells, buffers and reduced values on each process')
p('C14','Process grids multiply out and follow the shape of the domain',
  'Splitting a number of processes over the dimensions of a domain yields one positive factor per dimension, the factors multiply to the number of processes, and a longer dimension is never split into fewer pieces than a shorter one.',
  ['inputs'],'1-3 dimensions, process counts up to 200 (one dimension), 36 (two), 16 (three), every extent in bounds',
  'There are no tests of the factorisation.',
  ['src/util/factor.cpp','src/util/factor.hpp','src/util/algohelper.hpp'],['prime factorisation','recursive distribution minimising the sum of pieces per length'],'factors returned')
p('C15','Packed data buffers read back the packed elements in order',
  'Packing the elements referenced by a container (pointers or iterators) into a byte buffer gives a buffer of exactly the packed size, and iterating over it, on the sending side or after its bytes were transferred, yields every element once, in order and bit-for-bit unchanged, also when the buffer is reused for another number of elements.',
  ['inputs','histories'],'element types of different size and padding, 0-3 elements, lists and vectors of pointers and iterators, all element values, re-use',
  'There are no tests of the data buffer.',
  ['src/util/databuffer.hpp','src/util/databuffer.t'],['byte-wise copy with typed iterator'],'buffer size and elements read back')
exec(open(os.path.join(V,'meta2.py')).read()) if os.path.exists(os.path.join(V,'meta2.py')) else None
exec(open(os.path.join(V,'meta3.py')).read())
def main():
    P.sort(key=lambda x:x[0]['id'])
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for d,_ in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
    checks=[]
    for d,note in P:
        if d['id'] not in props.PROPS: NA.append({'property':d['id'],'reason':NAR[d['id']]}); continue
        b=props.PROPS[d['id']]['bounds']
        checks.append({'property':d['id'],'quick_cmd':'python3 check.py %s --tier quick'%d['id'],'thorough_cmd':'python3 check.py %s --tier thorough'%d['id'],
          'technique':'symbolic execution of the LLVM IR of the real code, assertions decided by Z3 (bounded), counterexamples replayed natively','level':'model_checking',
          'level_note':('Holds for every value within: '+b+' '+note).strip()})
    json.dump({'version':1,'setup_cmd':'python3 check.py --setup','checks':checks,'not_applicable':NA,'notes':'All checks: symbolic execution (engine/) of clang-compiled LLVM IR of /repo with harnesses in harness/; see DESIGN.md.'},open(os.path.join(V,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
NAR=globals().get('NAR',{})
main()
