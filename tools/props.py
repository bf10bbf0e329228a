TECH = 'contract-based deductive verification: contracts on functions extracted from the sources, VCs discharged by z3/cvc5'
F = 'include/vara/Feature/'
L = 'lib/Feature/'
PROPS = [
 dict(id='C01', title='Cloning a constraint yields an equal, fully independent tree',
      statement='For every constraint expression, its clone has exactly the same operators, operands, integer values and feature names, shares no node and no feature object with the original, and is a root of its own with correct links from every operand to its enclosing expression. Cloning changes nothing about the original, and the clone stays valid after the original is destroyed.',
      over=['inputs'], quant='every finite constraint tree over all operator kinds, with referenced or owned feature leaves',
      tests='Tests clone a few fixed expressions; operator kinds, nesting and sharing patterns are unbounded.',
      files=[F + 'Constraint.h', L + 'Constraint.cpp'],
      mech=[('recursive clone overrides', F + 'Constraint.h'), ('parent links set by the operand-owning constructors', F + 'Constraint.h')],
      note='Every clone override of every concrete constraint class, and every constructor they use, is proved against one contract for all trees (structural equality with an abstract tree, freshness of all nodes, parent links, frame). Trusted: extractor, VC generator, library models, solvers; memory release is not modelled (the harness checks it under ASan).'),
 dict(id='C02', title='Printed constraints spell exactly their structure',
      statement='The text form of every constraint is its fully parenthesised infix spelling: each binary expression is written as an opening parenthesis, left operand, operator symbol, right operand and closing parenthesis, unary operators are prefixed, integers are decimal and features are their names. The HTML form is that text with HTML metacharacters escaped at every nesting depth, and printing changes nothing.',
      over=['inputs'], quant='every finite constraint tree over all operator kinds',
      tests='Tests print a few fixed expressions of depth one or two and never a nested HTML form.',
      files=[F + 'Constraint.h', L + 'Constraint.cpp'],
      mech=[('toString/toHTML overrides', F + 'Constraint.h')],
      note='Every toString/toHTML override is proved equal to a recursive specification of the spelling over abstract trees, for all trees. Trusted: extractor, VC generator, formatv and HTML-escape library contracts, solvers.'),
 dict(id='C18', title='Configurations keep each option in its most specific type, and survive JSON',
      statement='A configuration option holds exactly the most specific value its text stands for (boolean, then 64-bit integer, then string) and gives back its name, that value and its text unchanged. A configuration is a map from names to options that changes only at the name being written, and iterates over every option; reading a configuration from a JSON object of strings and dumping it keeps every name and value, and anything that is not such an object is rejected.',
      over=['inputs', 'histories'], quant='every option text, every history of option writes, every JSON text',
      tests='Tests use a handful of option values and one JSON document.',
      files=['include/vara/Configuration/Configuration.h', 'lib/Configuration/Configuration.cpp'],
      mech=[('conversion of option text', 'lib/Configuration/Configuration.cpp'), ('JSON reading and dumping', 'lib/Configuration/Configuration.cpp')],
      note='Option construction and accessors, the option map operations and both JSON directions are proved for all inputs. Trusted: extractor, VC generator, contracts of std::string/StringRef/StringMap and llvm::json (parser and printer are assumed inverse), solvers.'),
 dict(id='C20', title='A model read from XML is the one the document describes, or none',
      statement='Reading an XML document gives a feature model only if the document conforms to its document type and can be interpreted, and no model otherwise: not if a feature is given two different parents or the text of a constraint cannot be parsed. The model has the name, path and commit of the document, one feature for every option, with its name, output string, parent (named by the option or by listing it as a child, in any order), optionality, range or list of values, step function and every source location with category, revisions, path, start, end and member offset, and exactly the listed implications, exclusions and boolean, non-boolean and mixed constraints with their flags. White space around names and values, comments and the order of options do not matter; siblings that are all mandatory and exclude each other form an alternative group.',
      over=['inputs'], quant='every text shorter than 2 GiB without NUL characters',
      tests='Tests read about thirty small documents.',
      files=[L+'FeatureModelParser.cpp', F+'FeatureModelParser.h', L+'XmlConstants.h', F+'FeatureSourceRange.h', F+'FeatureModelBuilder.h'],
      mech=[('FeatureModelXmlParser::parseVm, parseOptions, parseConfigurationOption, parseConstraints, create*, parseDoc, verifyFeatureModel, buildFeatureModel, detectExclude, detectXMLAlternatives', L+'FeatureModelParser.cpp')],
      note='Every reading function is proved to tell the builder (a ghost log) exactly what a recursive definition over the document tree lists, and to succeed exactly when that definition says so, with loop invariants over the rest of each list of nodes; all loops are proved to end. A document is accepted exactly if libxml2 finds it conforming. A model is built exactly if the document can be read so and the builder can build it, and its alternatives are those of the model: members of every feature with two or more, all mandatory and mutually exclusive. Assumed: libxml2, std::regex, the builder (C07, C08), the parsers of constraints and steps (C03, C22).'),
 dict(id='C21', title='Step functions parse to, evaluate and print exactly the written operation',
      statement='A step function text is one operand, one of the operators plus, times or power, and one operand, where exactly one operand is a number and the other an identifier, with any white space between; such a text yields a step function of exactly these operands and operator and every other text is rejected. Applying a step function computes its operation on the given value with the operands in the written order, and printing it spells operands and operator in that order.',
      over=['inputs'], quant='every text and every argument value',
      tests='Tests parse a few fixed texts and evaluate a few fixed points.',
      files=[F + 'StepFunction.h', F + 'StepFunctionParser.h'],
      mech=[('evaluation', F + 'StepFunction.h'), ('lexer and parser', F + 'StepFunctionParser.h')],
      note='Lexer, tokenizer, parser, constructors, evaluation and printing are proved for all texts and values. Trusted: extractor, VC generator, string, strtod and pow contracts; floating point treated as reals; solvers.'),
 dict(id='C22', title='Source locations order totally; source ranges and member offsets keep parts',
      statement='Source locations are totally ordered by line and then column, compare equal exactly when both agree, and print as line:column; a source range keeps the path, locations, category, member offset and revisions it was built from, and two ranges are equal exactly when path, start, end, category and member offset agree. A text is a member offset exactly when non-empty text follows its last "::", and the offset keeps that text, its class path split at every "::". A revision range keeps its commits.',
      over=['inputs'], quant='every text, location pair and range pair',
      tests='Tests compare a few fixed locations and parse a few fixed member offsets.',
      files=[F + 'FeatureSourceRange.h'],
      mech=[('location comparison', F + 'FeatureSourceRange.h'), ('member offset parsing and naming', F + 'FeatureSourceRange.h')],
      note='Constructors, accessors, comparison, printing and parsing are proved for all values and texts. The revision range is not part of range equality in the code and is left unpromised. Trusted: extractor, VC generator, StringRef, vector, optional and stringstream contracts, solvers.'),
 dict(id='C23', title='A result holds exactly a value or an error and gives back what was put in',
      statement='Every Result holds either a value or an error, never both and never neither; it converts to true exactly when it holds a value (whatever that value is), and yields exactly the value or the error code it was built from, also after being moved. Ok and Error behave the same way for their single alternative, and reading a result without extracting does not change it.',
      over=['inputs'], quant='every value and error code, for every instance of Result, Ok and Error in the library',
      tests='Tests build a few results with fixed values.',
      files=['include/vara/Utils/Result.h', F + 'Error.h', 'include/vara/Solver/Error.h'],
      mech=[('Result, Ok and Error members', 'include/vara/Utils/Result.h'), ('Error specialisations', F + 'Error.h')],
      note='Every constructor, conversion and accessor of every instance the library uses (and of instances over int and string) is proved. Printing (friend operator<<) is checked by the harness only. Trusted: extractor, VC generator, std::variant contract, solvers.'),
 dict(id='C07', title='Modifications keep the feature tree well formed and change what they promise',
      statement='Every modification of a feature model (adding and removing features and groups, moving a child, replacing the root, adding and removing locations, setting name, commit and path) leaves a well-formed tree: children know their parent, parents have an edge to each child, there is no cycle, every feature is found under its name, every group is stored once, and only the root lacks a parent. It changes exactly what it is meant to change, and reports an error exactly when it must not be done (missing parent, child or feature, name already present, a feature with features below removed non-recursively, a node moved below itself), in which case nothing changes.',
      over=['inputs', 'histories'], quant='every well-formed model (any number of nodes, any height) and every modification of it, hence every sequence of modifications',
      tests='Tests apply single modifications to models of a handful of features.',
      files=[F + 'FeatureModelTransaction.h', F + 'FeatureTreeNode.h', F + 'FeatureModel.h', F + 'Feature.h', F + 'Relationship.h', F + 'FeatureSourceRange.h', L + 'FeatureModel.cpp'],
      mech=[('operator() and exec() of every modification class', F + 'FeatureModelTransaction.h'), ('FeatureTreeNode::getChildren', F + 'FeatureTreeNode.h'),
            ('addFeature, removeFeature, addRelationship, removeRelationship, setRoot', L + 'FeatureModel.cpp'), ('addLocation, removeLocation', F + 'Feature.h')],
      note='Both entry points of every modification are proved against one contract each: well-formedness is preserved, the effect on members, parents, edges, root, locations and metadata is exact, and errors change nothing; subtree facts are lemmas proved by induction. Preconditions: the model is well formed, passed nodes belong to it, new features are not in it, a group is not put below a group, a root is only added to a model without loose features. Not modelled: freed memory (harness, under ASan), constraints mentioning removed features. Trusted: extractor, VC generator, container contracts, solvers.'),
 dict(id='C24', title='The consistency checker accepts exactly the consistent feature models',
      statement='A feature model is reported valid exactly if its root exists, is a root feature and is the only root feature in the model, every other feature has a feature above it (directly or through groups), and the parent of every other feature has that feature as a child; otherwise the error is INCONSISTENT. Each rule alone decides its own part, and Feature::getParentFeature gives the nearest feature above.',
      over=['inputs'], quant='every feature model, consistent or not: any number of features, any parent and child links between any nodes',
      tests='Tests check a default model, one missing parent and one extra root.',
      files=[F + 'FeatureModel.h', F + 'Feature.h', F + 'FeatureTreeNode.h'],
      mech=[('ExactlyOneRootNode, EveryFeatureRequiresParent, CheckFeatureParentChildRelationShip', F + 'FeatureModel.h'), ('FeatureModelConsistencyChecker::isFeatureModelValid', F + 'FeatureModel.h'),
            ('Feature::getParentFeature', F + 'Feature.h'), ('FeatureModel::FeatureMapIterator', F + 'FeatureModel.h')],
      note='Each rule is proved equivalent to its definition over the whole feature map, the checker (as instantiated by the transactions) to their conjunction, getParentFeature to the nearest-feature function by a loop invariant, and every operator of the map iterator the rules run over to the step it wraps. CheckFeatureParentChildRelationShip alone needs every non-root feature to have a parent (proved where the checker calls it). Assumed: termination of the parent loop. Trusted: extractor, VC generator, models of std::all_of, any_of, accumulate and llvm::StringMap, solvers.'),
 dict(id='C08', title='Transactions apply exactly what was asked, in order, and report what happened',
      statement='A modify transaction leaves the model untouched until it is committed; the commit executes the queued modifications in order, once each and with what they were queued with, stops at the first error, and returns that error, INCONSISTENT if the resulting model is not consistent, or success; a closed transaction returns ABORTED and changes nothing. A copy transaction applies each modification at once to its own clone of the model, with features and groups of the original standing for those of the clone, never changes the original, and its commit hands out the clone exactly if it is open and consistent. The free helper functions are one transaction of the modification they name.',
      over=['inputs', 'histories'], quant='every sequence of modifications queued on a transaction, every model, every outcome of every modification',
      tests='Tests run transactions of one to three modifications on small models and rarely make one fail.',
      files=[F + 'FeatureModelTransaction.h', L + 'FeatureModelTransaction.cpp'],
      mech=[('FeatureModelModifyTransactionBase', F + 'FeatureModelTransaction.h'), ('FeatureModelCopyTransactionBase', F + 'FeatureModelTransaction.h'), ('free helper functions', L + 'FeatureModelTransaction.cpp')],
      note='Queueing is proved to append exactly one entry of the right class with the passed arguments; commit is proved with a loop invariant over a ghost log of executions (which entry, with which field values, which result); the destructor, abort and the helpers against the same log. Every copy-mode call is proved against the C07 contract of its modification on the own model. Assumed: virtual exec as an opaque step, FeatureModel::clone; addConstraint in copy mode and removeFeatures are left to the harness.'),
 dict(id='C03', title='A constraint text is parsed to exactly the expression its grammar gives it',
      statement='Parsing a constraint text yields the expression of the grammar: * binds tighter than + and -, then the order comparisons, then = and !=, then &, then | and or, then the implications, then the equivalences; binary operators associate to the left, ! and ~ apply to the operand right after them, parentheses group, and white space between tokens has no meaning. Numbers stand for their value (scientific notation rounded to an integer), numbers that do not fit for the nearest 64-bit bound. Every text outside the grammar yields no expression, also if only its tail is malformed.',
      over=['inputs'], quant='every text of fewer than 2^28 characters: any tokens in any order, any nesting',
      tests='Tests parse some dozens of texts; operator combinations and nesting are unbounded.',
      files=[F + 'ConstraintParser.h', F + 'Constraint.h'],
      mech=[('ConstraintParser: constructor, buildConstraint, parseConstraint, parseUnaryConstraint, parseBinaryConstraint', F + 'ConstraintParser.h'), ('ConstraintToken::calcPrecedence', F + 'ConstraintParser.h'),
            ('parseInteger', F + 'ConstraintParser.h'), ('constructors of the constraint classes', F + 'Constraint.h')],
      note='The grammar is a recursive specification over token arrays (unary expression, operator with right operand, rest of an expression); each parser function is proved to return exactly its result, to consume exactly its tokens and to terminate, with loop invariants over the tokens read. parseInteger and calcPrecedence are proved against their definitions, the constructor against the tokens of C04. Uninterpreted: which texts llvm::StringRef::getAsDouble accepts and the value it gives, rounding by formatv. Trusted: extractor, VC generator, StringRef, deque and optional contracts, solvers.'),
 dict(id='C04', title='A constraint text is split into exactly the tokens it is written with',
      statement='The lexer splits a text from left to right into longest tokens: runs of white space, identifiers (a letter, then letters, digits and _), numbers (digits, with an exponent whose sign directly follows its e, in lower case), the word or, and the longest operator that fits. It stops at the end of the text, at a NUL or 0xFF character, or with an error token naming the first character that starts no token; the last token is the only one that is end or error. Identifiers, numbers and errors carry their text, other tokens carry none.',
      over=['inputs'], quant='every text of fewer than 2^28 characters over all 256 byte values',
      tests='Tests lex single tokens and a few short texts.',
      files=[F + 'ConstraintParser.h'],
      mech=[('ConstraintLexer: tokenize, munch, munchWhitespace, munchOperator, munchNumber, munchIdentifier', F + 'ConstraintParser.h'), ('ConstraintToken', F + 'ConstraintParser.h')],
      note='Each munch function is proved to return the token at the start of its text (maximal runs by take_while contracts and a loop invariant), tokenize by a loop invariant to return the tokens of all suffixes up to the first final one, and to terminate. Trusted: extractor, VC generator, StringRef, string and deque contracts, solvers.'),
 dict(id='C14', title='Constraints given to the solver admit exactly the assignments satisfying them',
      statement='Adding a well-sorted constraint to the solver restricts its solutions to exactly the assignments of the features under which the constraint is true: & | ^ ! => <=> and exclusion have their truth tables, comparisons and arithmetic are those of the integers (division as in SMT-LIB), features stand for their selection or number. For a mixed constraint, binary features count as 0 or 1, the truth value is negated for NEG, and with ALL the constraint only has to hold if every binary feature in it is selected. Adding a constraint changes nothing else.',
      over=['inputs'], quant='every well-sorted constraint tree over all operators, every assignment of the variables, every previous solver state',
      tests='Tests solve a handful of fixed constraints.',
      files=['lib/Solver/Z3Solver.cpp', 'include/vara/Solver/Z3Solver.h', L + 'Constraint.cpp', F + 'Constraint.h'],
      mech=[('Z3SolverConstraintVisitor::visit, addConstraint', 'lib/Solver/Z3Solver.cpp'), ('accept overrides of the constraint classes', L + 'Constraint.cpp'), ('Z3Solver::addConstraint, addMixedConstraint', 'lib/Solver/Z3Solver.cpp')],
      note='Expressions of the Z3 API are described by their value under one arbitrary fixed assignment, a solver by whether that assignment satisfies its assertions; every visit overload, every accept override and both entry points are proved to produce the recursively specified meaning of the tree, for all trees and assignments. Well-sortedness and numeric features having numeric kind are preconditions. Assumed: contracts of the Z3 C++ operators, that visit calls through the visitor base reach the solver visitor (its overloads are proved against the same contracts). Trusted: extractor, VC generator, solvers.'),
 dict(id='C15', title='Asking for the configurations of a model yields every solution exactly once',
      statement='Asking the solver again and again yields configurations that satisfy everything given to it, that each state exactly the known options with their values, and of which no two agree on every option; it answers UNSAT exactly when no further one exists, and the current configuration can be read again without advancing. The configurations of a feature model (getAllConfigs, the iterator) are all of its solutions, each once, getNConfigs yields that many of them or all, getNumConfigs their number, and isValid whether there is one.',
      over=['inputs', 'histories'], quant='every feature model and every solver state with finitely many solutions, any number of options and of configurations, every history of asking',
      tests='Tests count the configurations of a handful of fixed models.',
      files=['include/vara/Solver/ConfigurationFactory.h', 'include/vara/Solver/Solver.h', 'lib/Solver/Z3Solver.cpp', 'include/vara/Solver/Z3Solver.h', 'include/vara/Configuration/Configuration.h', 'lib/Configuration/Configuration.cpp'],
      mech=[('Z3Solver::excludeCurrentConfiguration, getCurrentConfiguration, getNextConfiguration, hasValidConfigurations', 'lib/Solver/Z3Solver.cpp'),
            ('ConfigurationFactory::getAllConfigs, getNConfigs, getNumConfigs, isValid; ConfigurationIterator', 'include/vara/Solver/ConfigurationFactory.h')],
      note='The solver functions are proved for one arbitrary assignment: asking excludes exactly the assignments that agree with the model just found on every option. That every assignment is treated so, and what a model means to the solver (C14, C16, C17), are the contracts under which the collecting loops are proved: what is collected is sound and without repetition, what is left are exactly the other solutions. Not claimed: that collecting ends if there are infinitely many solutions. Assumed: contracts of the Z3 C++ API, that its check never answers unknown. Trusted: extractor, VC generator, container contracts, solvers.'),
 dict(id='C12', title='Iterating over a model visits every feature once, depth first, siblings by name',
      statement='Iterating over the features of a well-formed model starts at its root and visits every feature of the model exactly once: a feature is visited after the feature above it (directly or through groups), the features below it directly after it and before anything else, siblings in ascending order of their lower-case names. An iterator equals the end exactly when nothing is left; copying and post-increment leave the other iterator where it is. A model without root has nothing to visit.',
      over=['inputs', 'histories'], quant='every well-formed feature model of any size and height, every step of every iteration',
      tests='Tests iterate over a few models of fewer than ten features.',
      files=[F + 'FeatureModel.h', F + 'FeatureTreeNode.h', F + 'Feature.h'],
      mech=[('FeatureModel::DFSIterator: constructor, operator*, ++ (both), ==, !=', F + 'FeatureModel.h'), ('FeatureModel::begin, end, features', F + 'FeatureModel.h'), ('FeatureTreeNode::getChildren', F + 'FeatureTreeNode.h')],
      note='A representation invariant (what is still to come are unvisited features without repetition whose feature above has been visited, everything below a visited feature is visited or still to come) is proved for begin() and preserved by every step; a step replaces exactly the feature left by the features below it, sorted. That nothing is missing at the end is a lemma proved by induction over the height. Assumed: lexicographic string order as an order on rationals. operator-> is left to the harness. Trusted: extractor, VC generator, models of std::upper_bound, for_each, stack and set, solvers.'),
 dict(id='C13', title='Features are ordered depth first, siblings by name; ordered vectors stay sorted',
      statement='Of two features of one tree the one above comes first; otherwise the lower-case names decide where their paths from the root part; features of different trees are compared by their own lower-case names. < is a strict order, total among features of one tree whose siblings differ in their lower-case names, > is its converse, and two features are equal exactly when their lower-case names are. Inserting into an ordered feature vector adds exactly the given feature, keeps what was there, and leaves the vector in that order.',
      over=['inputs'], quant='every two features of trees of any height and width; every ordered vector of features of one tree',
      tests='Tests compare a handful of features of a few small trees.',
      files=['lib/Feature/Feature.cpp', F + 'Feature.h', F + 'OrderedFeatureVector.h', 'lib/Feature/OrderedFeatureVector.cpp'],
      mech=[('Feature::operator<, >, ==, !=', 'lib/Feature/Feature.cpp'), ('OrderedFeatureVector::insert', 'lib/Feature/OrderedFeatureVector.cpp'), ('Feature::getParentFeature', F + 'Feature.h')],
      note='operator< is proved to compute a definition over paths (the n-th feature above, the depth, the number of features two paths share), with loop invariants for the two path loops and the loop that skips the common part; irreflexivity, asymmetry, transitivity, totality and that ancestors come first are lemmas about that definition, and insertion is proved over the comparison contract and the lemmas. Removal from and range insertion into an ordered vector, and hashing, are left to the harness. Assumed: parents form no cycle, lexicographic string order as an order on rationals. Trusted: extractor, VC generator, models of std::upper_bound, stack and vector, solvers.'),
 dict(id='C19', title='The XML written for a feature model says exactly what the model says',
      statement='Writing a feature model produces one vm document with its name, path and commit, one option for every root and binary feature and one for every numeric feature, in order of iteration, and every boolean, non-boolean and mixed constraint (with its flags) in order, except that a constraint by which one feature implies or excludes another is listed with that feature. An option carries the name, output string, parent, children in order, implied and excluded features (including the other members of its group), optionality, range or list of values and every source location with category, revisions, path, start, end and member offset; nothing else is written and nothing is left out. A failing call of the XML library is reported and ends the writing.',
      over=['inputs'], quant='every well-formed feature model whose source locations have a start and an end and whose value lists are not empty',
      tests='Tests write a few small models and compare the text.',
      files=[L + 'FeatureModelWriter.cpp', F + 'FeatureModelWriter.h', L + 'XmlConstants.h', F + 'FeatureModel.h', F + 'Feature.h', F + 'FeatureSourceRange.h'],
      mech=[('FeatureModelXmlWriter::writeFeatureModel, writeVm, writeBinaryFeatures, writeNumericFeatures, write*Constraints, writeFeature, writeSourceRange', L + 'FeatureModelWriter.cpp')],
      note='Every writer function is proved to extend a ghost log of calls to the XML library by exactly the calls the specification lists, with loop invariants as folds over the options, implications, exclusions, values, locations, constraints and visited features. Left open: the order of mutually exclusive options inside an option beyond being the order of the ordered vector, and step functions, which are not written. Assumed: libxml2, ordered vectors (C13), deterministic iteration (C12), no NUL in texts. The overloads of writeFeatureModel that create the libxml2 writer are covered by the harness only.'),
 dict(id='C25', title='The solver built for a feature model admits exactly what the model allows',
      statement='Building a solver for a well-formed feature model makes exactly the features of the model its options and admits exactly those selections that choose the root; give every numeric feature one of its values; choose a feature only with the feature above it, and a mandatory feature outside groups whenever the feature above it is chosen; choose a member of every group below a chosen feature, of an alternative group only one; and satisfy every boolean, non-boolean and mixed constraint of the model. Nothing else is asserted and nothing is left out, whatever the size of the model and the order of its parts.',
      over=['inputs'], quant='every well-formed feature model whose features are of a known kind, whose binary features hang below features that can be selected, whose alternative groups have members and whose constraints are well formed; every assignment',
      tests='Tests count the configurations of a handful of small models.',
      files=['include/vara/Solver/SolverFactory.h', 'lib/Solver/SolverFactory.cpp', 'lib/Solver/Z3Solver.cpp', 'include/vara/Solver/Z3Solver.h', 'include/vara/Solver/Solver.h', F + 'FeatureModel.h'],
      mech=[('SolverFactory::applyModelOnSolver, initializeSolver, initializeZ3Solver', 'lib/Solver/SolverFactory.cpp'), ('Z3Solver::create', 'include/vara/Solver/Z3Solver.h')],
      note='The loops of applyModelOnSolver are proved over the contracts of the solver functions (proved in C14, C16, C17) and of the iteration over the features (C12): every feature is given to the solver after the feature above it, once, with the right group flag; every group and every constraint of each kind exactly once, with its own flags. Assumed: that calls through Solver reach Z3Solver, contracts of the Z3 C++ API. Trusted: extractor, VC generator, container contracts, solvers.'),
 dict(id='C16', title='Features and groups given to the solver admit exactly the selections they allow',
      statement='After adding a root it is always selected; a binary feature can be selected only together with its parent feature, and outside a group a mandatory one is selected whenever its parent is. A group added to the solver requires, whenever the feature it belongs to is selected, at least one of its members and, if alternative, at most one; adding a feature or group changes nothing else. Adding a feature before its parent reports PARENT_NOT_PRESENT, adding one whose name is known reports ALREADY_PRESENT, and neither changes the solver.',
      over=['inputs'], quant='every feature, every group of any size, every assignment of the variables, every previous solver state',
      tests='Tests add at most a few fixed features and groups.',
      files=['lib/Solver/Z3Solver.cpp', 'include/vara/Solver/Z3Solver.h', F + 'Feature.h', F + 'Relationship.h'],
      mech=[('Z3Solver::addFeature (three overloads), setBinaryFeatureConstraints, addRelationship', 'lib/Solver/Z3Solver.cpp'), ('Feature::getParentFeature', F + 'Feature.h')],
      note='For one arbitrary fixed assignment of the variables each function is proved to conjoin exactly the stated condition to what the solver asserts, with a loop invariant over the members of a group and the representation invariant that every known name is mapped to the variable of that name. Preconditions: members of groups and parents are binary features or the root, alternative groups have members. Assumed: contracts of the Z3 C++ API. Trusted: extractor, VC generator, container contracts, solvers.'),
 dict(id='C17', title='Numeric features take exactly their listed values or the steps of their range',
      statement='In the solver a numeric feature with a value list takes exactly the listed values, negative ones included. One with a range takes the lower bound and the values its step function reaches from there, one step after the other, as long as they ascend and do not exceed the upper bound; without a step function it takes every integer of the range. Adding such a feature terminates.',
      over=['inputs'], quant='every value list and every range with or without step function, every assignment of the variables, every previous solver state',
      tests='Tests use one or two fixed lists and ranges.',
      files=['lib/Solver/Z3Solver.cpp', 'include/vara/Solver/Z3Solver.h', F + 'Feature.h', F + 'StepFunction.h'],
      mech=[('Z3Solver::addFeature (three overloads)', 'lib/Solver/Z3Solver.cpp'), ('StepFunction::next', F + 'StepFunction.h')],
      note='The steps are a recursively defined sequence; a loop invariant proves that the values collected are its first elements, a second one that the assertion is their disjunction, and a measure that the loop ends. Upper bounds are below 2^62. Assumed: contracts of the Z3 C++ API, double arithmetic as real arithmetic. Trusted: extractor, VC generator, container contracts, solvers.'),
]
