PA='src/parser/'
p('C16','Deck expressions have their conventional value',
  'The value of an expression in an input deck is its conventional value: ^ binds tightest, then * and /, then + and -, operators of equal rank are applied from left to right, parentheses and leading signs as usual; integers are computed as integers, as soon as a float is involved as floats, and + with a string concatenates. Parameters that appear in the expression contribute their current value. Ill-formed expressions are reported as parser errors, an integer division by zero as an evaluation error.',
  ['inputs'],'every expression of up to four (thorough: five) operands built from the templates, every parameter value',
  'The parser tests check a fixed list of expressions with random numbers; chains that mix types, signs and nesting are not sampled.',
  ['parser/deckgrammar.y',PA+'deckgrammar.inc',PA+'parsertoken.t',PA+'parsertoken.cpp',VV+'expression.hpp',VV+'operators.hpp'],['grammar','type promotion and operator construction','expression evaluation'],'value of a variable declared with the expression')
p('C17','Dependent variables are brought up to date exactly when needed',
  'After an update, every variable (and every parameter registered as dependent) has the value of its expression for the current values of the independent parameters, whatever the graph of dependencies between them and the order of their declaration; functions marked to be always re-evaluated are; parameters that were not asked for are left alone. Circular definitions are reported and do not crash or hang.',
  ['inputs','histories'],'every dependency graph over two and three variables (thorough: four) and three kinds of source, two rounds of updates, every value; 29 decks with every form of expression',
  'The tests use a few fixed graphs.',
  [VV+'dependencies.cpp',VV+'dependencies.hpp',VV+'expression.hpp',VV+'blockparameters.hpp',VV+'function_expression.hpp'],['dependency map and update order','updater with cached order'],'parameter values after update()')
p('C18','Names in a deck refer to the declared variable in scope',
  'A name denotes the variable of that name in the innermost enclosing block that declares one, a path a:b:x the variable x of block b inside block a, searched from the current block outwards. A declaration needs a value of exactly the declared type; an assignment changes the variable in scope and converts to its type (text that is not a number is an evaluation error). Redeclaring a variable or block in the same block, using or assigning an undeclared name, assigning a read-only parameter and unbalanced closing braces are parser errors; nothing else is. Variables have the value of their last assignment.',
  ['inputs'],'every deck made from the templates: up to three blocks (all name choices) and up to three (thorough: five) statements of 14 kinds, every parameter value',
  'The tests contain a handful of decks.',
  [VV+'variables.cpp',VV+'variables.hpp',PA+'parsertoken.cpp',PA+'parsertoken.t'],['scoped look-up','declaration and assignment actions','conversions'],'variables after parsing')
p('C19','A deck produces its block hierarchy and initialises it in order',
  'Parsing a deck creates one block object per block whose class is registered, named as in the deck, whose parent is the enclosing block with a class and whose children are in deck order. Blocks that are not allowed inside their parent are parser errors when blocks are restricted. Initialising (from any block of the hierarchy) evaluates all parameters, then runs registerData, preInit, init and postInit, each for every block exactly once, parents before children and in deck order, one phase after the other. Block containers hold exactly their child blocks of the right type, in deck order.',
  ['inputs','configurations'],'every nesting of three (thorough: four) blocks, every choice of classes, parameters set or not, initialisation from each block, tables of allowed children',
  'The tests build one hierarchy.',
  [VV+'block.cpp',VV+'block.hpp',VV+'blockcontainer.hpp',VV+'blockclasses.cpp',PA+'parser.cpp',PA+'parsertoken.cpp'],['block tree with depth counters','hierarchical hooks','container registration in preInit'],'order of the hook calls, parent, children')
p('C20','Shared block data is found in the right block',
  'Data published by a block is found by name from every block: in the block itself, else (for names head.tail) in the children called head, else in the nearest ancestor, and at the root anywhere in the hierarchy. The object retrieved is the published one (later writes are seen by all). Data that is not there is reported as not found, data found in several equally near blocks as duplicate. Published pointers are preferred over objects when a pointer is asked for.',
  ['inputs','configurations'],'every tree of four blocks, every choice of publishers, kinds and names, every asking block, five names',
  'The tests use one small hierarchy.',
  [VV+'block.hpp',VV+'blockdata.hpp'],['recursive search','per-type singleton maps'],'result of retrieveData')
p('C21','Block parameters receive exactly the values the deck gives them',
  'Evaluating the parameters of a block stores in the program variable the value of the last assignment in the deck, or the default; parameters without default that were not given are reported; read-only parameters and constants can not be assigned by the deck, are never overwritten by evaluation and follow the program variable; nothing else is written. Array parameters give every element its own named parameter, default and permission. A parameter group contains exactly the parameters added to it.',
  ['inputs','configurations'],'every combination of kind (required, default, read-only, constant) and assignment for int, float and string parameters; arrays of rank 1, 2, 3, 6; every group of up to four; every value',
  'The tests use one block with a few parameters.',
  [VV+'blockparameters.hpp',VV+'blockparameters.cpp',VV+'variables.cpp'],['parameter registration and evaluation','permissions','parameter groups'],'program variables after evaluation')
p('C22','Decks of any text are split into the right tokens or rejected',
  'Every text is either split into the sequence of tokens (kind, text, line number) given by the deck language, with longest match, comments and white space skipped, whatever the length of a token and wherever it lies in the input; or, if it contains a character that starts no token or ends inside a string or comment, it is reported as a parser error. No text crashes the scanner or makes it run for ever.',
  ['inputs'],'every text of two bytes (thorough: three) and every byte (thorough: two bytes) in 37 contexts; every position of a token relative to the read buffer; tokens of up to 520 characters',
  'The tests scan a few decks shorter than the buffer.',
  [PA+'internal/deckscanner.cpp','parser/deckscanner.rl',PA+'tokenlist.hpp'],['generated scanner tables','buffer shifting and growth'],'token list')
p('C23','Function calls in decks call the named function with the given arguments',
  'A call in a deck evaluates the registered function of that name with the values of the arguments, in order and converted to the parameter types; it is constant exactly if the arguments are and the function need not always be re-evaluated. Unknown functions and wrong numbers of arguments are reported. Each mathematical function of the library computes what its name says.',
  ['inputs'],'every cmath and utility function and six user signatures, arguments of every type and number, every value',
  'The tests compare some functions for random arguments.',
  [VV+'function_expression.hpp',VV+'function_expression.cpp',PA+'parsertoken.cpp'],['argument conversion and invocation','function registration'],'value of the call')
