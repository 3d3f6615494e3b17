"""The hand-written parts of DESIGN.md."""

INTRO = open(__import__('os').path.join(__import__('os').path.dirname(__file__), 'design_intro.md')).read()

NOTES = {
'P01': 'Oracle: calendar arithmetic of the engine (days from civil date, exact integers), not that of the code. Years, months and days are solver integers with the Gregorian rules as constraints, so all leap years in the range are covered in one query. '
       'Outside: times outside 1850-2030, float32 rounding of monthly and annual time bases.',
'P02': 'Oracle: the definition of each schedule written with the same calendar arithmetic. Outside: the index of an epoch-numbered daily schedule as a position in a list (the class numbers steps by day, its callers know), '
       'and times before the first step of monthly and annual schedules. One known finding (mid-month epoch).',
'P03': 'Oracle: the partition of 0..n-1 itself: for a symbolic item number, exactly one task runs it. Loops over operations are avoided by stubs that record the index asked for. Outside: negative task numbers (Python indexing wraps), the number of checksum threads actually started.',
'P04': 'Oracle: for each step, the files whose own time falls in it. Presence, times and policies are symbolic; datasets are three files and three steps, enough for every relation of neighbours. Outside: patterns of names beyond those listed, file systems.',
'P05': 'The netCDF file is a dictionary in memory with the semantics of netCDF4 variables (fill values, strings, types); the replay writes real netCDF files in a scratch directory. Oracle: equality of what was saved and loaded.',
'P06': 'Files are lists of bytes and numbers; numpy.fromfile, tofile, seek and tell follow item sizes. Oracle: the list of valid observations of the day. The replay uses real files.',
'P07': 'Oracle: the definitions of the operations for every place on its own.',
'P08': 'Oracle: for every cell, the statistics of the observations whose place lies in it, computed by hand. Outside: precision is 1/uncertainty by the definition in the code (not its square); rounding.',
'P09': 'Oracle: cell k is [start + k inc, start + (k+1) inc). Latitude exactly 90 is a known finding. Outside: rounding of coordinates at cell edges.',
'P10': 'The C library that aggregates pixels is compiled from the tree by the engine\'s small C front end (cmini) into the same symbolic execution, so that changes of the C code are seen; the replay uses the compiled library. '
       'Outside: AggregateGridArray masks an extreme that is exactly 0 (values are kelvins), more than 4 pixels, overflow of counters.',
'P11': 'Flags are 16-bit vectors. Oracle: (flags & mask) == filter for each pixel. Files are stand-ins that give symbolic fields.',
'P12': 'Oracle: normal equations by hand for two parameters; solutions by Cramer\'s rule, equality of fractions decided by cross multiplication. The native library is replaced by its contract (solve, factor, log determinant), in the replay it is the library. '
       'Outside: more than 2 parameters (3 for blocks), conditioning of large systems.',
'P13': 'Pickled files are a dictionary by path (the real writer in the replay). Oracle: a dictionary by kind and time. Outside: StorageBatched_Files.measurement_read, which refers to an attribute that does not exist.',
'P14': 'Components are recorders with symbolic expected values for the schedule of updates, and real components for one combined run. Oracle: observations less the sum of the expected values of all other components.',
'P15': 'Oracle: the sum over the points of a cell by hand, for any values of the field at these points; cosines are concrete. Outside: grids of one row or column (the spacing cannot be known).',
'P16': 'Oracle: each row of the design written by hand; jacobians compared with the formal derivative of the function. Bases are any weights.',
'P17': 'Oracle for derivatives: the difference quotient is not used; the precision as a solver term in the parameter is differentiated formally, so derivatives are exact. Exponentials and logarithms are uninterpreted with their laws (see below). '
       'Outside: lattices of one or two nodes in a wrapped dimension; smoothness above 4.',
'P18': 'Oracle: basis functions and bilinear weights written by hand from the distance. Outside: grids not ordered from south to north, places poleward of the last row of a covariate.',
'P19': 'Meshes of levels 0 to 3 are made by the code; the solver decides for any place in a triangle (barycentric weights as variables) that it is found. Trigonometric functions are uninterpreted with the laws of sine and cosine. Outside: places at vertices at rounding level, levels above 3.',
'P20': 'Oracle: inverse, trace and determinant by hand for 2 and 3 variables; the gradient is the formal derivative of the cost. The optimiser (scipy) is a stand-in that returns any point and success or failure.',
'P21': 'Oracle: list of valid observations by hand. Breaks are ordered by station and rising time, as the files of breaks are.',
'P22': 'Oracle: area means by hand for any design. Outside: more blocks than cells.',
'P23': 'Flags are bit vectors, fields symbolic reals; percentiles by sorting networks. Oracle: definitions of windows, quantiles and thresholds for each cell. Outside: latent_variable_check (names of flags it needs do not exist), windows with no other day present (rely on ordering None below numbers).',
'P24': 'Oracle: the set of bits that hide a cell. iris.load is a stand-in giving symbolic cubes. Outside: attributes and layout of files.',
'P25': 'Oracle: the tests and formulas written out for one cell; convolution by its definition. The test of night-time bins is left out: as coded (and as its unit test demands) it never hides anything. Outside: grids without two cells of border, the reading of files.',
'P26': 'Oracle: mean and variance of the mean over the sources present, by hand. Files, disk and the writer of products are stand-ins that record what is done, in replay as well. Outside: the layout of the files written, correlations below zero.',
'P27': 'Names are strings of symbolic characters (any of an alphabet of letters, digits and the special characters of regular expressions); the expressions the code builds are matched by a stand-in for re that forks on each character and backtracks in the order of re; '
       'the replay uses re itself. Oracle: the date by its digits and the tags by their places. Outside: patterns are not anchored at the end of a name (as coded); more than one nested pattern.',
'P28': 'Files and cubes are stand-ins holding symbolic fields. Oracle: a table of which model field makes which product field, sums of squares by hand. The compiled (IDL) models themselves are outside: they are started through a recorder.',
'P29': 'netCDF files are written through the stand-in (real files in the replay); text tables by the contract of genfromtxt (real text for ships in the replay). Oracle: the conditions of the statement written out for each reading. '
       'Outside: reading lakes through preparedailyfixed (its constructor differs), dates of ships beyond those of P01.',
'P30': 'Files are the netCDF stand-in (real files in the replay); for verification, objects with the attributes a file may have. Oracle: a table of samples by time and station; the conjunction of the requirements. Times between 0.0004 and 0.001 days apart are left out (the resolution is not transitive). '
       'Outside: packing beyond 130 to 400 K and 32 K of uncertainty; the reader of specification documents.',
'P31': 'The number of iterations and the iteration are symbolic; names are texts with that number in them. Oracle: which solution is the latest, from the order of components. Outside: the descriptor without batches of the copy in examples (its call lacks an argument), names that contain each other.',
'P32': 'Fields are built with one field of symbolic values (the others have values of their own, so that exchanges show), written and read back through the stand-in for netCDF4; the stored whole numbers are checked against the range of their type. The declared storage of the second program is checked for any value in range with the rounding as a symbolic integer. Days and times asked for are a list of cases (the text is parsed by the standard library). Outside: saving of iris cubes itself (the call of createVariable does not run with the installed netCDF4), values outside the stated ranges.',
}

REST = open(__import__('os').path.join(__import__('os').path.dirname(__file__), 'design_rest.md')).read()
