"""The properties: one prop(...) per claimed property, one na(...) per property that is stated but not claimed."""
C = 'src/sloth/core/'
S = 'src/sloth/'
P, NA = [], []


def mkp(id, title, statement, over, text, why, files, mech, note=''):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)


def prop(*a, **k):
    P.append(mkp(*a, **k))


def na(reason, *a, **k):
    NA.append((mkp(*a, **k), reason))


NOTEST = 'The stable tests only construct single constants, parameters and variables and compare a few attributes; '

prop('U01', 'Units multiply, divide and raise to powers by exponent arithmetic',
     'Multiplying, dividing and raising units to a numeric power adds, subtracts and scales the exponents of all seven base dimensions, for every exponent and power, and the predefined units have their SI dimensions. '
     'Multiplying or dividing a unit by a plain number gives a quantity with that number and that unit (or its reciprocal for number/unit). '
     'No operation changes its operands or a unit built or copied from them, and a power with a dimensional exponent is rejected.',
     'inputs', 'every pair of units with arbitrary exponents, every power and scalar',
     NOTEST + 'they exercise two or three concrete unit products, not arbitrary exponents, and no aliasing.',
     C + 'unit.py ' + C + 'template_units.py', [('dimension mapping arithmetic', C + 'unit.py Unit.__mul__/__truediv__/__pow__'), ('predefined units', C + 'template_units.py')])

prop('U02', 'Coherence and dimensionlessness depend on all seven dimensions exactly',
     'Two units are judged coherent exactly when all seven base-dimension exponents agree, and a unit is judged dimensionless exactly when all seven are zero, for arbitrary (also fractional or negative) exponents. '
     'Adding or subtracting units is accepted, and keeps the dimension, exactly when they are coherent; the decision never changes either unit.',
     'inputs', 'every pair of units with arbitrary exponents',
     NOTEST + 'the decision over arbitrary exponents, its symmetry and transitivity are not sampled at all.',
     C + 'unit.py ' + C + 'error_definitions.py', [('coherence comparison', C + 'unit.py Unit._check_dimensional_coherence'), ('dimensionless test', C + 'unit.py Unit._is_dimensionless')])

prop('Q01', 'A quantity takes exactly the last coherent value assigned to it',
     'Assigning a number, a number with a unit, or another quantity to a constant, parameter, variable or plain quantity stores exactly that value and marks it as specified when the dimensions agree. '
     'A value in an incoherent unit, an incoherent quantity or a non-numeric object is rejected and leaves value, specified flag and dimension as they were. '
     'Assignment never changes the dimension of the quantity, the unit or quantity it was taken from, or any other quantity.',
     'inputs histories', 'every value, every pair of units, every quantity class, every short history of assignments',
     NOTEST + 'the tests assign one valid value and check one invalid type.',
     C + 'quantity.py ' + C + 'parameter.py ' + C + 'variable.py ' + C + 'constant.py', [('value assignment', C + 'quantity.py Quantity.setValue')])

prop('Q02', 'Arithmetic between quantities is value and unit arithmetic',
     'Adding, subtracting, multiplying, dividing and raising quantities to powers gives the quantity whose value is the arithmetic of the values and whose dimension is the arithmetic of the dimensions. '
     'Sums and differences of incoherent quantities are rejected. Operands keep their value, dimension and name.',
     'inputs', 'every pair of values and units',
     NOTEST + 'no test multiplies or adds quantities.',
     C + 'quantity.py', [('quantity arithmetic', C + 'quantity.py Quantity.__add__/__mul__/__truediv__/__pow__')])

prop('Q03', 'A quantity enters expressions as itself',
     'The expression of a quantity has the dimension of the quantity, refers to exactly that quantity, and stands for its value when it is specified and for an unknown of that name when it is not. '
     'This holds after every later assignment, and taking the expression never changes the quantity.',
     'inputs histories', 'every quantity class, value, unit and re-assignment',
     NOTEST + 'values and units are fixed samples, and only one call is made.',
     C + 'variable.py ' + C + 'parameter.py ' + C + 'constant.py ' + C + 'quantity.py', [('conversion to an expression', C + 'variable.py Variable.__call__ and siblings')])

prop('E01', 'Expression arithmetic tracks physical dimensions exactly',
     'For every expression built with + - * / ** from variables, parameters, constants, derivatives and numbers, the dimension of the result is the one dimensional analysis prescribes, whatever the exponents. '
     'Combinations that dimensional analysis forbids (incoherent sums and differences, dimensional exponents, dimensional bases with exponents of unknown value) are rejected. '
     'Building an expression never changes the dimension of its operands.',
     'inputs programs', 'every pair of operand kinds in both orders and every nesting of two operations, arbitrary exponents and values',
     NOTEST + 'expressions with symbolic dimensions and every operand order are out of reach of samples.',
     C + 'expression_evaluation.py ' + C + 'unit.py', [('node arithmetic', C + 'expression_evaluation.py EquationNode operators'), ('unit arithmetic', C + 'unit.py')])

prop('E02', 'Functions, extrema and derivatives respect dimensions',
     'The elementary functions (exponential, logarithms, square root, absolute value, sine, cosine, tangent) accept exactly dimensionless arguments and give dimensionless results. '
     'Minimum and maximum accept exactly mutually coherent arguments and give their common dimension. '
     'The derivative of a variable has the dimension of the variable over that of its independent variable, and is rejected outside a domain.',
     'inputs programs', 'every function, operand kind, number of arguments within bounds and all exponents',
     NOTEST + 'no stable test calls a function or a derivative.',
     C + 'equation_operators.py ' + C + 'expression_evaluation.py', [('dimension checks of the operators', C + 'equation_operators.py')])

prop('E03', 'An expression evaluates to what was written',
     'For all values of its unknowns and specified quantities, an expression built with + - * / **, the elementary functions, minima and maxima evaluates to the value of the formula the user wrote, for every operand order and nesting. '
     'The printable form denotes the same formula, with specified quantities shown by name. Using an expression inside a larger one does not change it.',
     'inputs programs', 'all real values; every operand kind and order; every nesting of two operations, functions and extrema',
     NOTEST + 'agreement for all values of the unknowns is not testable by samples, and reflected operand orders are not exercised.',
     C + 'expression_evaluation.py ' + C + 'equation_operators.py', [('symbolic object construction', C + 'expression_evaluation.py EquationNode operators'), ('functions', C + 'equation_operators.py')])

prop('E04', 'An expression lists exactly the quantities it mentions',
     'Every expression reports exactly the quantities that occur in it, under their own names and as the same objects, and reports as unknowns exactly those that were unspecified when they entered it. '
     'This holds for every operand order, nesting, function and extremum, and combining expressions never changes the lists of the operands.',
     'inputs programs histories', 'every operand kind, order and nesting of two operations',
     NOTEST + 'the merged lists of compound expressions are never inspected.',
     C + 'expression_evaluation.py ' + C + 'equation_operators.py', [('map merging', C + 'expression_evaluation.py EquationNode operators')])

prop('E05', 'Linear, nonlinear and differential classification is sound',
     'Every expression has exactly one class: it is differential exactly when it contains a derivative, and an expression classified linear is an affine function of its unknowns for all values of the specified quantities. '
     'Sums, differences and products by specified quantities or numbers of unknowns are classified linear.',
     'inputs programs', 'all values of unknowns and specified quantities; every nesting of two operations, functions and extrema',
     NOTEST + 'affinity is a statement over all pairs of points.',
     C + 'expression_evaluation.py ' + C + 'equation_operators.py', [('classification rules', C + 'expression_evaluation.py EquationNode._checkEquationTypePrecedence')])

prop('R01', 'Evaluating an equation gives left side minus right side',
     'For every equation, given as a residual or as an equality, the residual equals left side minus right side and each side evaluates to its own formula, for all values of the quantities involved, whether the values are passed explicitly or taken from the current values of the quantities. '
     'An equation records exactly the quantities of both of its sides, and re-declaring it replaces sides, residual and record together. Evaluations do not influence later ones.',
     'inputs histories', 'all values; sides from every operand kind and operation',
     NOTEST + 'no stable test evaluates an equation.',
     C + 'equation.py ' + C + 'equation_operators.py', [('evaluation', C + 'equation.py Equation.eval/getResidual'), ('declaration', C + 'equation.py Equation.setResidual')])

prop('R02', 'Only dimensionally coherent equations between expressions are accepted',
     'Equating two expressions is accepted exactly when they have the same dimension (a bare number takes the dimension of the other side); anything else, and anything that is not an expression, is rejected and leaves an existing equation as it was. '
     'An accepted equation is differential exactly when either side contains a derivative, linear when both sides are affine in the unknowns and nonlinear when a side has products or quotients of unknowns.',
     'inputs programs', 'arbitrary exponents of both sides, every pair of operand kinds',
     NOTEST + 'no stable test builds an equation.',
     C + 'equation.py ' + C + 'equation_operators.py ' + C + 'expression_evaluation.py', [('equality operator', C + 'expression_evaluation.py EquationNode.__eq__'), ('validation', C + 'equation.py Equation.setResidual')])

prop('R03', 'Compiled and converted equations agree with the equation',
     'The function compiled from an equation (whole residual or one side, every argument order, with unused arguments, for the offered compilation mechanisms) returns the same value as the equation for all argument values. '
     'Converting an equality to residual form keeps its value, its quantities and its class, and doing it twice changes nothing; the symbolic forms handed out denote the same formula.',
     'inputs programs', 'all argument values; every argument order tried; sides from every operand kind and operation',
     NOTEST + 'no stable test compiles an equation.',
     C + 'equation.py', [('compilation', C + 'equation.py Equation._convertToFunction'), ('residual conversion', C + 'equation.py Equation._convertToResidual')])

prop('M01', 'Declared objects belong to their model under their full names',
     'Every variable, parameter, constant and equation a model declares is registered exactly once, in the registry of its own kind of its own model, under the full name `name_model`, with the value, unit, bounds, description and exposure it was declared with. '
     'Bound flags follow the bounds given, an exposed variable is listed exactly on its declared side, and a redeclaration replaces only the object of that name. '
     'Objects of other models are not affected, objects created before the base constructor runs survive it, and loading a model runs its declarations once each with equations last.',
     'inputs histories', 'all values, bounds and units; every sequence of declarations over two models within bounds',
     NOTEST + 'no test declares objects in two models or repeats a declaration.',
     S + 'model.py ' + C + 'variable.py ' + C + 'parameter.py ' + C + 'constant.py', [('declaration', S + 'model.py Model.createVariable/createParameter/createConstant/createEquation'), ('loading', S + 'model.py Model.__call__')])

prop('M02', 'An equation may only mention quantities of its own model',
     'Creating an equation is accepted exactly when every quantity occurring in it, on either side and at any depth, is a registered object of that model, unless the check is waived. '
     'A rejected equation is not registered and leaves both models and any earlier equation of that name as they were; an accepted one is registered under its full name and evaluates to what was declared. Equal short names in two models denote two quantities.',
     'inputs programs', 'every mix of own, foreign and free-standing operands, in residuals and equalities, with functions and powers; all values',
     NOTEST + 'no stable test creates an equation in a model.',
     S + 'model.py', [('ownership check', S + 'model.py Model._checkEquation_'), ('creation', S + 'model.py Model.createEquation')])

prop('M03', 'Incorporating a model copies its objects and equations',
     'Incorporating another model adds a copy of each requested kind of object to the target, renamed to the target or not as asked, with the same value, specified flag, bounds, unit, description and exposure, and copies of its equations that evaluate, at all values, to the original equations over the copied objects. '
     'The source and what the target already had do not change, later changes of one side do not show in the other, and the result can itself be incorporated.',
     'inputs histories', 'all values and units; every form of equation within bounds; with and without renaming; every subset of kinds; one and two steps',
     NOTEST + 'no stable test incorporates a model.',
     S + 'model.py ' + C + 'equation.py ' + C + 'expression_evaluation.py', [('incorporation', S + 'model.py Model.incorporateFromExternalModel')])

prop('M04', 'A connection means sum of inputs equals sum of outputs',
     'Connecting models is accepted exactly when the receiving variables are exposed as inputs of the one model and the sending ones as outputs of the other, and adds one equation whose residual is zero exactly when the sums of both sides agree, or the given expression when there is one. '
     'A connection between arbitrary expressions sets them equal. Rejected connections change nothing, every accepted one is kept and recorded with its description, and connections are part of the assembled problem.',
     'inputs histories', 'every exposure of up to three variables on each side; all values; repeated connections; two and three models',
     NOTEST + 'no stable test connects models.',
     S + 'problem.py ' + S + 'model.py ' + S + 'connection.py', [('connection by variables', S + 'problem.py Problem.createConnection'), ('exposure', S + 'model.py Model exposed_vars')])

prop('P01', 'An assembled problem is exactly the equations of its models',
     'Resolving a problem yields one block with the equations of every added model and connection, each exactly once, whatever the order of declaration and addition; the unknowns are exactly the unspecified variables they mention and the parameters exactly those they mention, a connected variable once. '
     'Residuals of the block equal the declared ones at all values. Resolving again rebuilds the same system with the parameter values of the moment, quantities no equation mentions stay out, and two problems do not see each other.',
     'inputs histories', 'model families within bounds, every declaration order, arbitrary parameter values and evaluation points, repeated resolution',
     NOTEST + 'no stable test resolves a problem.',
     S + 'problem.py ' + C + 'equation_block.py', [('assembly', S + 'problem.py Problem._buildEquationBlock'), ('block', C + 'equation_block.py EquationBlock')])

prop('P02', 'The class of a problem follows from the classes of its equations',
     'A problem is linear when all its equations are linear, nonlinear when some algebraic equation is nonlinear and none is differential, differential when all are differential, and differential-algebraic when differential and algebraic equations occur together. '
     'This holds for every order and distribution of the equations over models, counts connections, follows parameters specified later at the next resolution, and depends on no parameter value.',
     'inputs programs', 'every sequence of up to three equation kinds over one to three models; all parameter values',
     NOTEST + 'no stable test classifies a problem.',
     S + 'problem.py ' + C + 'equation_block.py', [('classification', S + 'problem.py Problem._getProblemType')])

prop('P03', 'A simulation starts exactly when unknowns and equations balance',
     'The degrees of freedom are the unspecified variables and parameters the equations mention, minus the number of equations; derivatives and the time variable add nothing. '
     'A system with exactly zero degrees of freedom is passed on to the solver; any other is refused before solving, unless the check is switched off.',
     'inputs programs', 'every count of unknowns and equations within bounds, algebraic and dynamic, one and two models',
     NOTEST + 'no stable test counts degrees of freedom.',
     S + 'simulation.py ' + S + 'analysis.py ' + S + 'problem.py', [('degrees of freedom', S + 'analysis.py DOF_Analysis'), ('gate', S + 'simulation.py Simulation.runSimulation')])

prop('P04', 'Functions of an assembled system return its residuals and rates',
     'The functions a problem hands to solvers return, in the order of its equations, for every value of the unknowns in the order of its list of unknowns, the residual of each equation; for explicit differential systems the right-hand side of each, and for differential-algebraic ones the residual with every derivative taken from its own place. '
     'Which variables are differential and which quantities occur in which class of equation is reported truthfully.',
     'inputs programs', 'all evaluation points, parameter values, derivative values and times; every order of declaration; one and two models',
     NOTEST + 'no stable test compiles a block of equations.',
     C + 'equation_block.py', [('compilation of blocks', C + 'equation_block.py EquationBlock._getEquationBlockAsFunction'), ('differential map', C + 'equation_block.py EquationBlock._getMapForRewriteSystemAsResidual')])

prop('S01', 'A linear problem is answered with a solution of its equations',
     'For every linear problem with a regular matrix, each back end (sympy, scipy, symbolicsys) is given exactly the declared system and its answer, one number per unknown under the name of that unknown, satisfies every equation for all coefficients. '
     'A failed solution is reported instead of returned, and running again solves the system with the parameter values of the moment.',
     'inputs histories', 'all coefficients with a regular matrix, every declaration order, one to three unknowns, one and two models',
     NOTEST + 'no stable test solves a problem.',
     S + 'solvers.py ' + S + 'simulation.py ' + C + 'equation_block.py', [('linear solver', S + 'solvers.py LASolver'), ('coefficient matrix', S + 'solvers.py LASolver._getABfromEquations')])

prop('S02', 'A nonlinear problem is solved from its start by the chosen back end',
     'A nonlinear problem is handed to the configured back end with exactly its equations and the configured start value for each unknown by name (one for every unknown when no start values are configured), or the polished start when polishing is asked for and succeeds; the answer is returned under the name of each unknown. '
     'A failure raises and is not replaced by an earlier answer, later runs solve the system of the moment, and an unknown back end is refused.',
     'inputs histories', 'all coefficients and start values, every declaration order, one and two unknowns, one and two models, polishing succeeding or not',
     NOTEST + 'no stable test solves a problem.',
     S + 'solvers.py ' + S + 'simulation.py', [('nonlinear solver', S + 'solvers.py NLASolver')])

prop('S03', 'The integrator receives the right rates, start and times',
     'A dynamic problem is integrated once with rates that equal the declared right-hand sides at every state and time, whatever the declaration order, compiled or interpreted, from the initial condition of each state by name, at the configured times: both ends and evenly spaced steps, or exactly the times given. This holds for each integrator (odeint and CVODE) and with one or several time variables. '
     'Missing initial conditions are refused before integration, solver options travel unchanged, and a later run uses the initial conditions and parameters of the moment.',
     'inputs histories', 'all states, times, parameters and initial conditions; every declaration order of up to three states; one and two models with one or two time variables',
     NOTEST + 'no stable test integrates a problem.',
     S + 'solvers.py ' + S + 'simulation.py ' + C + 'equation_block.py', [('differential solver', S + 'solvers.py DSolver'), ('time grid', S + 'solvers.py DSolver.solve')])

prop('S04', 'Dynamic results are recorded under the right names and rows',
     'After a dynamic run the table of the domain and the results returned as list or dictionary hold, for every time, the time and each state under its own name (or its renamed header), for every declaration order of variables, equations and domain. '
     'Further runs are appended below, a reset empties the table, and simulations over different domains do not mix.',
     'inputs histories', 'all solution values, every order of up to three states, renamed headers, one to three runs with and without reset',
     NOTEST + 'no stable test looks at a result table.',
     S + 'solvers.py ' + S + 'simulation.py ' + C + 'domain.py', [('registration', C + 'domain.py Domain._register/_reset/_renameHeaders'), ('results', S + 'simulation.py Simulation.getResults')])

prop('S05', 'A differential-algebraic run is set up and recorded correctly',
     'A differential-algebraic problem is handed to the integrator with residuals that equal the declared equations at every state, derivative and time, with initial values and initial derivatives of each unknown by name, and with exactly the algebraic unknowns marked; the requested end time and number of points, or exactly the times given, are used. '
     'Results are recorded under the right names and appended or reset; missing initial values and unbalanced systems are refused.',
     'inputs histories', 'all states, derivatives, times, parameters and initial values; every order of two and three unknowns',
     NOTEST + 'no stable test integrates a problem.',
     S + 'solvers.py ' + S + 'simulation.py ' + C + 'equation_block.py', [('differential-algebraic solver', S + 'solvers.py DaeSolver'), ('registration', C + 'domain.py Domain._register')])

prop('S06', 'Simulations are configured as asked and dispatched by problem class',
     'Every configuration option, given as keyword, in a dictionary (which goes over keywords) or loaded from a dumped file, is in force with exactly the given value, and every other option keeps its documented default; the time variable defaults to that of the problem in dynamic simulations. '
     'A run hands the problem and configuration to exactly one solver of the class of the problem, with the back end configured for that class, and keeps its answer; anything else is refused. Configurations of two simulations are independent.',
     'inputs histories', 'every option alone and in pairs, all numeric values, the four classes of problem, reconfiguration between runs',
     NOTEST + 'no stable test configures or runs a simulation.',
     S + 'simulation.py ' + S + 'solvers.py', [('configuration', S + 'simulation.py Simulation.setConfigurations'), ('dispatch', S + 'simulation.py Simulation.runSimulation and ' + S + 'solvers.py _createSolver')])

prop('S07', 'Results are shown and returned as computed',
     'After a run, the printed summary has one row per unknown with its unit and value, or per time with each value under its heading; the residual table of an algebraic run shows for every equation its residual at the answer; results as list or dictionary hold exactly the answers; showing results before a run and unknown kinds of result are refused. '
     'Indexing a simulation by a parameter or its name gives that parameter of the problem, anything else is refused, and a value set through it enters the equations at the next resolution.',
     'inputs histories', 'all answer values, units and parameters; algebraic problems of one to three unknowns, dynamic ones of one to three states in every order',
     NOTEST + 'no stable test looks at results.',
     S + 'simulation.py', [('summary', S + 'simulation.py Simulation.showResults'), ('results', S + 'simulation.py Simulation.getResults'), ('parameters', S + 'simulation.py Simulation.__getitem__')])

prop('D01', 'A domain keeps exactly the rows registered, under the right columns',
     'Distributing variables over a domain gives one table per independent variable with the independent variables first and the distributed ones in order. '
     'Every registration appends its rows below the earlier ones, unchanged; rows of another width are refused without loss, a reset empties the tables, renamed headers keep their columns, lookups return the columns asked for in the order asked, and domains do not see each other. A derivative requires a domain.',
     'inputs histories', 'all values, one to three registrations of one to three rows, every order of up to three variables, one and two independent variables, any renaming',
     NOTEST + 'no stable test registers values in a domain.',
     C + 'domain.py ' + C + 'variable.py', [('tables', C + 'domain.py Domain._register/_reset/_renameHeaders/__getitem__'), ('distribution', C + 'variable.py Variable.distributeOnDomain')])

prop('L01', 'Unit operations hold exactly when their balances hold',
     'The equations of mixer, splitter, valve, pump, heater and cooler are all satisfied exactly when molar and mass flow are conserved, pressure is kept, lowered (valve, heater, cooler) or raised (pump) by Delta_P, enthalpy flow is kept or raised by Q, temperature is kept or raised by Q/(mdot*Cp), the volumetric outflow of a valve is perc_open*mdot/rho, '
     'and, with several phases (mixer, splitter, pump), molar and mass fractions of the phases are conserved (and sum to one at both ends of a mixer or splitter). '
     'Everything entering or leaving is exposed with the right dimensions, so units in series balance as a whole; instances are independent and later parameter values are followed.',
     'inputs histories', 'all flows, states, fractions, properties and parameters; every unit operation, one to three phases, pairs in series; one and two resolutions',
     NOTEST + 'no stable test uses a unit operation.',
     S + 'unit_op_library.py ' + S + 'model.py ' + S + 'problem.py', [('balances', S + 'unit_op_library.py Mixer/Valve/SimplePump/Heater DeclareEquations')])

prop('L02', 'Streams derive the missing flow and update their property package',
     'When a stream with a property package is loaded and exactly one of its mass and molar flow is specified, the other becomes specified as mass flow = molar flow * molar mass (in g/mol) of the package; specified flows are left alone. '
     'The package is asked once per load to calculate with exactly those of temperature and pressure that are specified, at their current values. Without a package nothing is derived. Streams are independent, have quantities of the right dimensions, and multiphase streams a molar and a mass fraction per phase.',
     'inputs histories', 'all values and molar masses; every subset of specified quantities, before or between loads; one to three phases; one and two streams',
     NOTEST + 'no stable test loads a stream.',
     S + 'unit_op_library.py ' + S + 'model.py', [('derivation', S + 'unit_op_library.py MaterialStream.DeclareParameters and siblings')])

prop('L03', 'Property packages hold one entry per phase and combine without loss',
     'A property package has the phases it was created with, in order, each reached by its name and the last also as `*`. '
     'Adding another package appends the phases that are new, in order, with their entries, keeps those already there, and leaves the other package and packages created before or after as they were; anything but a package is refused. '
     'Temperature and pressure take floats only, and calculating reaches every phase once with the temperature and pressure given or the defaults.',
     'inputs histories', 'all temperatures and pressures; packages of one to three phases in every order; sums of two and three packages with any overlap',
     NOTEST + 'no stable test creates a property package.',
     C + 'property_package.py', [('sum', C + 'property_package.py PropertyPackage.__add__'), ('calculation', C + 'property_package.py PropertyPackage.calculate')])

prop('O01', 'An optimizer runs with exactly the settings of its study',
     'For each of the optimizers ga, sade, de and pso, the algorithm created is the one of that name, and every setting that belongs to it (rates, factors, variants, tolerances, topology, kinds of operators, generations) reaches it under the right parameter, with the value given by dictionary or saved file and the documented default otherwise. '
     'The study keeps all settings and the right log columns; studies do not share settings; an optimizer or settings of a wrong type are refused. '
     'The simulations use the configuration given as dictionary or file, else that of the simulation, and a study without any is refused.',
     'inputs', 'all numeric values of every setting, every subset of settings, all four optimizers, dictionary, file or defaults',
     NOTEST + 'no stable test creates an optimization study.',
     S + 'optimization.py', [('optimizer set-up', S + 'optimization.py Optimization._setOptimizer'), ('settings', S + 'optimization.py Optimization.__init__')])

prop('O02', 'An optimization reports the best candidate and its true objective',
     'During a run the objective of the user is called once per candidate, with that candidate, the simulation and configuration of the study; the optimizer sees the declared bounds, population size and generations, and the candidate reported at the end is the least (or, when the problem or the study asks for maximization, the greatest) of those seen, with its objective and the log in the sign of the user, for single and repeated runs. '
     'Setting a parameter of the simulation inside the objective, resolving and running solves the equations at the candidate. A study whose problem was not prepared, or whose constraints miss a parameter, does not run, and results before a run are refused.',
     'inputs histories', 'all candidates, objective values (ties included), bounds of one to three parameters, all optimizers and directions, one to three runs, exchanged problems',
     NOTEST + 'no stable test runs an optimization; the signs and the order of objective values are never varied.',
     S + 'optimization.py ' + S + 'simulation.py ' + S + 'problem.py', [('run', S + 'optimization.py Optimization.runOptimization'), ('objective', S + 'optimization.py OptimizationProblem._evaluateFitness/DeclareSetBounds')])

prop('I01', 'Objects of the same kind share no state',
     'Whatever is declared in, connected to, set on or run with one model, problem or simulation never shows in another of the same kind, nor in those created afterwards: registries, exposed variables, ports and their named inlets, models, connections, initial conditions, time variables, settings, answers and plotters are those of the object itself. '
     'Ports handed to a model are used, and inlets are found by their name, once each and in order. Problems over the same model each resolve it on their own, and simulations over the same problem run alike.',
     'histories', 'every history of two or three operations on two instances of each kind with arbitrary values, followed by new instances',
     NOTEST + 'no stable test has two models or problems at once.',
     S + 'model.py ' + S + 'problem.py ' + S + 'simulation.py ' + S + 'solvers.py ' + S + 'plotter.py', [('instance state', S + 'model.py Model.__init__/_setInlets, ' + S + 'problem.py Problem.__init__, ' + S + 'simulation.py Simulation.setConfigurations')])

prop('A01', 'Reports show the equations as declared',
     'The report of a model has one row per equation, in order of declaration, with its name, its description, a representation that evaluates to the residual declared at all values, exactly the variables, parameters and constants it mentions with the specified parameters and constants marked, and its type. '
     'The report of a problem names its class and contains the report of each model, connections included; reports follow later changes and change nothing. Anything but a model or problem is refused.',
     'inputs histories', 'all values; families of every class with any subset of parameters specified; one and two models, connections of up to three variables',
     NOTEST + 'a stable test prints one report and checks nothing in it.',
     S + 'analysis.py ' + S + 'simulation.py ' + S + 'model.py ' + C + 'expression_evaluation.py', [('reports', S + 'analysis.py Analysis.modelReport/problemReport'), ('representation', C + 'expression_evaluation.py EquationNode.repr_symbolic')])

prop('G01', 'A plot shows exactly the series asked for',
     'Plotting draws every ordinate against every abscissa, unchanged, each with its own label and marker, over exactly the range of the abscissa, whether the series are arrays or are looked up in a domain by name (original or renamed, in any order); unknown names are refused and draw nothing. '
     'Axes, grid, legend, line width, window and file are as asked, complete before they are shown or saved, and a plot shows nothing of the plots before it.',
     'inputs histories', 'all values; one or two abscissae, one to three series of one to three points; every combination of options; three plots in a row',
     NOTEST + 'a stable test, if any, draws one figure and checks nothing in it.',
     S + 'plotter.py ' + S + 'simulation.py ' + C + 'domain.py', [('plots', S + 'plotter.py Plotter.plotTimeSeries')])

prop('L04', 'The inlet state of a model is the least of its inlet streams',
     'Loading a model with inlet streams adds equations that hold exactly when its inlet pressure and inlet temperature are the least of the pressures and temperatures specified for its streams, whatever the port or order they were set in; values changed and streams added later are followed at the next load, and the solutions of the resolved problem have that inlet state. '
     'The inlet quantities are inputs of the model with their units, created when missing; streams keep their quantities, models sharing a stream are independent, and a totalization function of the user is called instead, once per load and only when there are inlets, between the declarations of variables and of equations.',
     'inputs histories', 'all temperatures and pressures of one to three streams, ties included; one to three loads with changes; several kinds of model',
     NOTEST + 'no stable test gives a model an inlet.',
     S + 'model.py ' + S + 'unit_op_library.py ' + C + 'equation_operators.py', [('totalization', S + 'model.py _totalizeInletsFunction_genericMaterialStreams'), ('inlets', S + 'model.py Model._setInlets/__call__')])

na('The answer is a number computed inside LSODA/IDA/MINPACK (compiled code behind scipy and assimulo); its accuracy is a matter of floating-point iteration that no encoding within reach decides, and assimulo is not installed. The checks S01-S05 decide what the library hands to and takes from these solvers.',
   'N01', 'Numerical solutions converge to the true solution within tolerance',
   'The trajectories and roots returned by the external numerical solvers approximate the true solution of the equations within the requested tolerance.',
   'inputs', 'every well-posed problem', 'tests compare one trajectory at one point.',
   S + 'solvers.py', [('external solvers', S + 'solvers.py DSolver/DaeSolver/NLASolver')])

na('Mixture properties are computed by the third-party thermo/CoolProp code from compiled tables; the code of this repository only forwards them (decided in L03 with arbitrary property values), and the mixture resolution path refers to an undefined name and cannot run.',
   'N02', 'Thermodynamic properties of packages are physically right',
   'Molar mass, density, heat capacity and phase equilibrium answered by a property package are those of the mixture at the given temperature and pressure.',
   'inputs', 'every mixture, temperature and pressure', 'no test computes a property.',
   C + 'property_package.py', [('package', C + 'property_package.py PropertyPackage')])

na('Only the pressure and temperature of inlets are totalized by models (decided in L04); the totals of flows, phases and enthalpy exist only in unit_op.py and in the flash, tank and exchanger classes, which are unfinished in this commit: they refer to names that do not exist (resolve_mixture, Sum, delf, mix_rho_) and raise before their equations are complete, so there is no behaviour to decide.',
   'N03', 'Unit operations with several inlets balance flows over all of them',
   'A unit operation with several inlet streams, or several phases leaving it, conserves mass, moles, phases and energy over the sum of its inlets.',
   'inputs', 'every number of inlets and their states', 'no test declares inlets.',
   S + 'unit_op.py ' + S + 'unit_op_library.py', [('totalization', S + 'unit_op.py UnitOp._totalizeInlets')])

na('The drawing of the connection graph is a string handed to graphviz (pygraphviz is not installed) and the calls to it are commented out in Problem; there is no observable behaviour in this commit.',
   'N04', 'The connection graph shows every model and connection',
   'Drawing the connection graph of a problem shows one node per model and one edge per connection.',
   'inputs', 'every problem', 'nothing draws a graph.',
   S + 'graph_creator.py', [('graph', S + 'graph_creator.py ConnectionGraph')])
