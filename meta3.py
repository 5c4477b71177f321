p('C08','A field has its ghost cells, and its cells lie where the domain says',
  'A field made from an inner index range (or a number of cells, or a range object), a physical domain, a stagger and a number of ghost cells has exactly the inner range extended by the ghost cells on every side, and reports the inner range, domain and stagger it was given; so do fields that were resized, copied or assigned. The inner cells divide the domain evenly: cell i lies at the left end of its interval, or at its middle in a staggered direction, and ghost cells continue the spacing. Positions translate back to the index of the grid point left of them and the fractional offset from it.',
  ['inputs'],'every geometry, index and position within the bounds',
  'The tests construct a handful of fields with fixed geometry and never translate positions.',
  [G+'field.hpp',G+'field.t'],['Field constructors and resize','indexToPosition, positionToIndex'],'limits, positions and indices the field reports')
p('C24','Filling a field evaluates the deck expression at the position of every cell',
  'After fill_field (or FieldFiller::fillFields) every cell of the field, ghost cells included, holds the value the deck expression has when the coordinate parameters are set to the physical position of that cell, with the other parameters at their current values; staggering is honoured, intermediate deck variables are re-evaluated for every cell, and only the fields that were asked for are written. A filler fills the fields registered with it, each with the coordinates and updater given for it.',
  ['inputs','histories'],'every cell of fields of up to three dimensions, every origin, stagger and parameter value within the bounds, several fields and fillers one after the other',
  'There is no test of field filling.',
  ['src/tools/fieldtools.hpp','src/tools/fieldtools.t',G+'field.t',VV+'dependencies.cpp'],['fill_field','FieldFiller','DependencyUpdater'],'cell values of the field')
p('C25','Diagnostics are written when due, to the right file, by the right process',
  'When the DiagnosticManager is executed, an interval diagnostic writes if and only if the time step is a multiple of its interval, or the run ends (negative time step); a delta time diagnostic writes if and only if the physical time has reached its next output, which then advances by its period, starting at its delay. A diagnostic that does not append opens, writes and closes one file per output, whose name has #p replaced by the process rank and #t by the time step ("final" at the end), or by the running number of the output for delta time diagnostics; an appending diagnostic opens its file once and keeps it open. A diagnostic with single output is executed by the master process only. A missing time counter or physical time is reported by an exception if and only if it is needed; a diagnostic that has been destroyed is not executed any more while the others are; adjustDeltaT never increases the time step, keeps it positive, never steps over a coming output and only shortens the step to reach one.',
  ['inputs','histories'],'every interval, period, delay, time and sequence of executions within the bounds, every combination of master, rank, single output and appending, diagnostics destroyed at any point',
  'There is no test of the diagnostics.',
  ['src/diagnostic/diagnostic.cpp','src/diagnostic/diagnostic.hpp','src/util/singleton.hpp'],['IntervalDiagnostic::execute','DeltaTimeDiagnostic::execute','DiagnosticManager::execute','DiagnosticManager::adjustDeltaT'],'calls of open, write and close with their file names')
p('C26','A grid written to an HDF5 file holds every cell, and reads back as it was',
  'Writing a grid with HdfOStream creates a data set that holds the value of every cell: with parallel HDF5 a data set with the extents of the global grid in which every process has written its local (inner) cells, however the grid is divided and however many ghost cells there are; without it a data set of the whole local grid. HdfIStream reads the same values back, also with another division of the grid, and leaves ghost cells alone. Data sets are named in sequence: data0, data1, ... without a block name, otherwise the name, the name with 1, with 2, and so on; attributes are stored with their values. A stream opens a file exactly when it is told to and is active, files are closed exactly once, when no stream (copies included) uses them; only active processes take part and all collective calls of HDF5 are made by all of them. HDFGridDiagnostic writes the current values of the field it names at every output due; HDFGridReader fills the field it names.',
  ['inputs','histories','schedules'],'every division of the global grid over the processes for writing and for reading, every cell value, every history of the streams and of the active processes within the bounds',
  'There is no test of the HDF5 classes; a test would cover one division and one history.',
  ['src/diagnostic/hdfdiagnostic.cpp','src/diagnostic/hdfdiagnostic.hpp','src/diagnostic/hdfdiagnostic.t'],['HdfOStream::writeGrid','HdfIStream::readGrid','HdfStream','HDFGridDiagnostic','HDFGridReader'],'contents of the files, of the grids read, and the state of the streams')
p('C27','Arrays and grids are written as text completely and in order',
  'Writing an Array to an output stream writes its elements in order, separated by single spaces. Writing a Grid of rank 1 to 5 writes the value of every cell of the grid exactly once, whatever the extents, the position of the lower corner and the storage order: the first index runs fastest and the cells of a row are separated by single spaces; from rank 2 on every row ends with a newline, from rank 3 on every two-dimensional slice is followed by an empty line. SimpleFileDiagnostic writes the current values of the field it names to its file: a new file per output, closed after it, with nothing left over from an earlier file of that name, or, when appending, all outputs one after the other in one file.',
  ['inputs','histories'],'every element value, extent, corner and storage order within the bounds; outputs over four time steps',
  'There is no test of the text output; a test would look at one grid, while the loops must be right for every extent, corner and rank.',
  ['src/datastream.hpp','src/datastream.t','src/diagnostic/diagnostic.hpp','src/diagnostic/diagnostic.t'],['operator<<(Array)','operator<<(Grid)','SimpleFileDiagnostic::write','SimpleFileDiagnostic::open'],'the text in the stream or file')
p('C28','Literature references keep their fields and are all listed exactly once',
  'The constructors of the thirteen kinds of literature reference store every argument in the field of the same name (the school of a thesis in school, the organisation of proceedings in organization) and leave the other fields empty; a reference whose type is not set is a misc; copies and assignments are equal to the original. Printing a reference writes one BibTeX entry of the right type and key that contains every non-empty field once with its value, and no other field. LiteratureManager keeps one record per key, with the first reference added under it and the set of all descriptions given with that key; writeBibTex writes every record once, writeInformation lists every key once, with each of its descriptions once, the title, the subtitle and the name of the bibliography; the reference to Schnek itself is always there.',
  ['inputs','histories'],'every field, constructor and set of optional arguments, every text of the values, every history of additions within the bounds',
  'There is no test of the bibliography; with 27 fields and 13 constructors of up to 18 arguments, a test samples a few.',
  ['src/tools/literature.hpp','src/tools/literature.cpp'],['LiteratureReference','operator<<(LiteratureReference)','LiteratureManager::addReference','LiteratureManager::writeBibTex','LiteratureManager::writeInformation'],'the fields of a reference and the text written')
p('C29','Numeric helpers give the value they are named for',
  'schnek::min and max return the smaller and the larger of their arguments; signum is -1 for negative numbers and 1 otherwise, signum0 is the sign with 0 for zero; crossProduct is the vector product of two three-component vectors; mean is the sum of the values divided by their number. Whatever numbers rand() delivers, drand() lies between 0 and 1 and irand(range) lies between 0 and range-1.',
  ['inputs'],'all arguments and all results of rand() within the bounds',
  'The values of rand() for which irand() leaves its range are too rare for a test to meet.',
  ['src/functions.hpp','src/functions.cpp','src/algo.hpp','src/algo.t'],['drand','irand','min','max','signum','signum0','crossProduct','mean'],'return values')
p('C30','Grids in Kokkos memory behave like other grids; parallel loops visit every cell',
  'A grid with KokkosGridStorage, created or resized to any range, reports that range, its extents, size and strides; every index in the range names its own cell of the allocated view, all access forms name the same cell, and values written are read back. Copied and assigned grids share their data: a value written through one is seen through all, resizing one resizes all that share with it and no other, and grids can be destroyed in any order. RangeKokkosIterationPolicy::forEach calls its function exactly once for every position of the range, whatever the order in which Kokkos runs the iterations, and never for a position outside; an empty range gives no calls.',
  ['inputs','histories','schedules'],'every range, index and value, and every history of copying, assigning, resizing, writing and destroying within the bounds; iterations in several orders',
  'The tests access single grids of random extents; copies, assignments and the parallel iteration policy itself are not tested.',
  ['src/grid/gridstorage/kokkos-storage.hpp','src/grid/iteration/kokkos-iteration.hpp'],['KokkosGridStorage','RangeKokkosIterationPolicy::forEach'],'addresses and values of the cells, and the positions visited')
p('C31','Malformed decks are rejected, and errors name the file and line of the mistake',
  'A deck is parsed without a syntax error exactly if it follows the grammar. A deck that breaks it is rejected at the first token that cannot follow the ones before, and an incomplete deck at its last token. Undeclared, redeclared, read-only or unassignable names, duplicate or disallowed blocks, surplus braces and literals out of range are rejected too. The error carries the name of the file and the line of the mistake.',
  ['inputs'],'every sequence of tokens within the bounds, and every listed kind of mistake after any of the listed texts, inside and outside blocks',
  'The tests parse a few good decks and a few bad ones, and check neither lines nor that every other token sequence is rejected.',
  ['src/parser/parser.cpp','src/parser/parsertoken.cpp','src/parser/deckgrammar.inc','src/parser/tokenlist.hpp','src/parser/internal/deckscanner.cpp'],['Parser::parse','ParserToken','TokenList','Parse'],'the exception thrown by Parser::parse, its file name and line')
