prop('P01', 'Calendar times and their numeric representations convert without loss',
     'Converting any time to a number of seconds or days since an epoch gives the elapsed time, and converting the number back gives the same time (to the '
     'second for seconds, within rounding for days). This holds for every epoch, for times before and after it and for the analysis epoch helpers, and '
     'consecutive whole numbers of days are consecutive calendar days.',
     ['inputs'], 'every time and every epoch from 1850 to 2030, at whole seconds (microseconds for days)',
     'The tests convert a handful of times; leap years, negative offsets and fractions of seconds are combinations over sixty thousand days.',
     ['src/eumopps/timeutils/timebase.py', 'src/eustace/timeutils/epoch.py'],
     [('TimeBaseSeconds, TimeBaseDays', 'src/eumopps/timeutils/timebase.py'), ('days_since_epoch, epoch_plus_days', 'src/eustace/timeutils/epoch.py')])

prop('P02', 'Step schedules map indices, times and output names one to one',
     'For daily, epoch-numbered daily, monthly, annual and mid-month schedules, the time of an index and the index of a time are inverse to each other, '
     'every time belongs to the step whose period contains it, and the number of steps covers start to end inclusive. '
     'A set of name patterns is accepted as identifying steps only if every date field that tells steps apart occurs, and names built from it differ between steps.',
     ['inputs', 'configurations'], 'every start and end from 1850 to 2030, every index of the schedule and every time of day',
     'Tests look at a few indices of one schedule; off-by-one errors at ends of years, months and before the start need the whole calendar.',
     ['src/eumopps/catalogue/step.py', 'src/eustace/analysis/advanced_standard/fileio/step.py', 'src/eustace/analysis/advanced_standard/examples/step.py',
      'src/eustace/analysis/advanced_standard/examples/stepmidmonth.py'],
     [('StepDaily', 'src/eumopps/catalogue/step.py'), ('StepDailyEpoch', 'src/eustace/analysis/advanced_standard/fileio/step.py'),
      ('StepAnnual, StepMonthly', 'src/eustace/analysis/advanced_standard/examples/step.py'), ('StepMidMonth', 'src/eustace/analysis/advanced_standard/examples/stepmidmonth.py')])

prop('P03', 'Work split into batches, months or threads covers every item exactly once',
     'Running the tasks of all batches runs every operation of a catalogue exactly once and in its own place, a task beyond the last operation runs nothing, and '
     'an operation runs only if it is not merely listed and its toolchain matches or a mismatch was explicitly allowed. '
     'Batch counts and cycle points are just enough for all operations, monthly post-processing operations hold exactly the days of consecutive months, and checksum '
     'threads share the files without gap or overlap.',
     ['inputs', 'configurations'], 'operation counts to 100000, batch sizes to 1000, every task number, months 1850 to 2100, thread counts to 64',
     'A test runs one batch of one catalogue; a dropped or repeated last operation shows only for counts that are not multiples of the batch size.',
     ['src/eumopps/catalogue/commandrun.py', 'src/eumopps/catalogue/multiplecommandsrun.py', 'src/eumopps/catalogue/fileio/formatnetcdf.py',
      'src/eumopps/catalogue/jinja/batches.py', 'src/eumopps/catalogue/dataset.py', 'src/eustace/postprocess/operation_count.py'],
     [('commandrun', 'src/eumopps/catalogue/commandrun.py'), ('operationcount', 'src/eumopps/catalogue/fileio/formatnetcdf.py'),
      ('BatchSpecificationCollection', 'src/eumopps/catalogue/jinja/batches.py'), ('compute_checksum_thread_indices', 'src/eumopps/catalogue/dataset.py'),
      ('operation_dates', 'src/eustace/postprocess/operation_count.py')])

prop('P04', 'Each operation gets the inputs and outputs of its own step',
     'Resolving a catalogue gives every step exactly the input files that belong to it, in catalogue order, and its own output names; after steps are skipped, all '
     'parameters of the remaining operations still belong together. '
     'A step without input files is refused, kept as missing or skipped exactly as its missing-data policy says; single-file inputs refuse steps with several files; '
     'references lead to the path of the dataset joined with the entry name, and an operation name is found only if it is unambiguous.',
     ['inputs', 'configurations'], 'every placement of up to three input files over three steps, every presence pattern, every combination of policies of two inputs',
     'Mixing inputs of neighbouring steps depends on which files are missing for which of several inputs; tests have one catalogue.',
     ['src/eumopps/catalogue/placeholder.py', 'src/eumopps/catalogue/operation.py', 'src/eumopps/catalogue/operationparameters.py',
      'src/eumopps/catalogue/fileio/formatnetcdf.py', 'src/eumopps/catalogue/storage.py'],
     [('InputFile, InputFileList, OutputFile', 'src/eumopps/catalogue/placeholder.py'), ('resolve_operation_references', 'src/eumopps/catalogue/operation.py'),
      ('load_data_pathnames, findoperation', 'src/eumopps/catalogue/fileio/formatnetcdf.py')])

prop('P05', 'Catalogues and JSON objects survive saving and loading',
     'A catalogue saved to file and loaded again has the same identifier, datasets, subsets, patterns, file entries (each with its own name, time, size and checksum, '
     'unknown ones staying unknown), operations, counts and per-step references, numbers and times; an operation is found by its name or its function, and a name that '
     'stands for two is refused. '
     'Objects described in JSON survive likewise, zero, false and empty values included, and file references survive conversion to plain numbers.',
     ['inputs'], 'every combination of known and unknown times and sizes of three files, any numbers and times, 0 to 2 files in each of three steps',
     'Round trips are tested with one fully populated catalogue; values lost or moved between entries need gaps, zeros and lists of different lengths.',
     ['src/eumopps/catalogue/fileio/formatnetcdf.py', 'src/eumopps/netcdfobjects/netcdfobjects.py', 'src/eumopps/jsonobjects/jsonobjects.py',
      'src/eumopps/catalogue/datareference.py', 'src/eumopps/timeutils/datetime_numeric.py'],
     [('save_object, load_object', 'src/eumopps/netcdfobjects/netcdfobjects.py'), ('CatalogueWriterNetCDF, CatalogueReaderNetCDF', 'src/eumopps/catalogue/fileio/formatnetcdf.py'),
      ('save, load', 'src/eumopps/jsonobjects/jsonobjects.py')])

prop('P06', 'Raw binary files give back exactly the valid observations of their day',
     'Writing the observations of a day stores exactly those that are valid (unmasked) and whose time falls within the day, and reading gives them back in order, '
     'value for value: location, measurement, uncorrelated uncertainty and every locally correlated uncertainty; a missing file gives no valid observation, and '
     'counts and location lists read on their own agree. '
     'Location tables and correlation ranges are read back as written, location pointers lead to exactly the measurements of their location, files that belong to '
     'another location table or have another format are refused, and files of different days or observables have different names.',
     ['inputs'], '3 observations with any mask, any times around the day, any values and 0 to 2 correlated uncertainties; two days at any of 3 locations',
     'Tests write one set of observations; a wrong day boundary, a mask ignored or columns exchanged show only for other sets.',
     ['src/eustace/analysis/fileio/observationsource_rawbinary.py', 'src/eustace/analysis/fileio/locationpointers.py'],
     [('ObservationRawBinaryWriter, ObservationRawBinaryReader', 'src/eustace/analysis/fileio/observationsource_rawbinary.py'),
      ('LocationPointersRawBinaryWriter', 'src/eustace/analysis/fileio/locationpointers.py')])

prop('P07', 'Combining and filtering sets of observations keeps each with its own values',
     'The mean of two sets of observations covers the locations of both, is valid only where both are, and has the mean of the two measurements and the root mean '
     'square of the two uncertainties of each kind; sets of different times, orders or uncertainty components are refused. Appending keeps all observations of both '
     'sets with their own values, masks and (offset) locations. '
     'Break-point policies keep exactly the break points that are likely enough, station selections exactly those of the station, and summaries of observation '
     'counts add up the days present and count those missing; a source without data gives an empty set for each observable.',
     ['inputs'], 'sets of up to 4 observations with any masks, values and 0 or 2 correlated uncertainties; 4 break points; 5 days of counts',
     'Which sites overlap, which values are masked and which break points pass a threshold are combinations; tests have one example of each.',
     ['src/eustace/analysis/observationsource.py', 'src/eustace/analysis/obscount.py', 'src/eustace/analysis/fileio/observationsource_missing.py'],
     [('Observations.mean, append, ObservationsBreakPoints', 'src/eustace/analysis/observationsource.py'), ('ObsCounter', 'src/eustace/analysis/obscount.py')])

prop('P08', 'Diagnostic grid cells hold the statistics of their own observations of the day',
     'The diagnostic grid of a day takes exactly the valid observations of that day, each into the cell its location lies in. For every cell and source, count, '
     'smallest and largest observation and uncertainty, precision (sum of inverse uncertainties), weighted sum and weighted mean are those of its own observations, '
     'also when they arrive in parts; cells without observations stay masked, sources do not mix, and grids with several times are refused.',
     ['inputs'], '3 observations at any place of a 2 x 3 grid, any mask, times, values and uncertainties; two sources',
     'Statistics that mix cells, sources or earlier parts show only for particular arrangements of observations over cells.',
     ['src/eustace/analysis/diagnosticgrid.py', 'src/eustace/satgrid_iris/gridbin/gridfieldlist.py'],
     [('DiagnosticGridInput, DiagnosticGridObservationConnector, DiagnosticGridBins', 'src/eustace/analysis/diagnosticgrid.py')])

prop('P09', 'Every coordinate is binned into the grid cell that contains it',
     'On every grid axis a value gets the index of the cell whose edges contain it, the end of a circular axis counts as its beginning, and values outside an axis '
     'that does not wrap are refused, be it even by little. Two-dimensional grids give the flat index of row and column, cell centres and edges are where binning '
     'puts them, and the map from satellite pixels to cells has exactly the unmasked pixels, each with its own cell.',
     ['inputs'], 'any value from three cells below to three cells above each of 5 axes, any point of the global quarter-degree grid, any mask of 3 pixels',
     'Tests bin a few values; wrong cells at edges, at the date line and outside the axis need every value.',
     ['src/eustace/satgrid/grid.py', 'src/eustace/satgrid_iris/gridbin/gridfieldlist.py', 'src/eustace/satgrid_iris/gridbin/gridbin.py', 'src/eustace/outputformats/globalfield.py'],
     [('GridAxis, GridLatLon', 'src/eustace/satgrid/grid.py'), ('GridFieldAxis', 'src/eustace/satgrid_iris/gridbin/gridfieldlist.py'),
      ('GridBins.compute_input_map', 'src/eustace/satgrid_iris/gridbin/gridbin.py')])

prop('P10', 'Satellite grid cells hold the statistics of their clear pixels over all files',
     'For every grid cell, over any number of files: the number of observations, mean, minimum, maximum and the propagated random, locally correlated and systematic '
     'uncertainties are those of the selected pixels of the cell (random variances divided by the square of the count, locally correlated and systematic ones by the count, inside the root), '
     'and variance and sampling uncertainty come from the deviations from the mean and the share of clear pixels. '
     'Cells without observations carry the invalid flag or stay masked; sums, counts, extremes and deviations of iris bins count unmasked pixels only.',
     ['inputs'], '3 or 4 pixels in all arrangements listed over small grids, any temperatures, uncertainties, masks and quality classes, one or two files',
     'Aggregation over files and cells mixes up only for particular arrangements; the tests use one or two.',
     ['src/eustace/satgrid/aggregate_grid.py', 'src/eustace/satgrid/aggregate.c', 'src/eustace/satgrid/file_aggregate_grid.py',
      'src/eustace/satgrid_iris/gridbin/operation/sumcountmaxmin.pyx', 'src/eustace/satgrid_iris/gridbin/operation/sumsq.pyx', 'src/eustace/satgrid_iris/gridbin/operation/sumsqdev.pyx', 'src/eustace/satgrid_iris/gridbin/operation/count.pyx'],
     [('AggregateGridCountSumMinMax, AggregateGridArray', 'src/eustace/satgrid/aggregate_grid.py'), ('SatelliteFileAggregator', 'src/eustace/satgrid/file_aggregate_grid.py'),
      ('aggregate_sum and others', 'src/eustace/satgrid/aggregate.c')])

prop('P12', 'Component solutions are the posterior of prior and all evidence, once each',
     'Given a prior precision Q and observations with design H, precision P and values y less their offset, a component estimate solves (Q + sum H\'PH) x = sum H\'Py: every observation set of '
     'every time step counts exactly once, order and merging do not matter, merging leaves what was stored unchanged, and steps without observations add nothing. '
     'Spatial components use the evidence of their own time only, space-time components that of all times. Marginal standard deviations are the roots of the diagonal of the inverse posterior precision '
     'whatever the block size, and posterior samples have its covariance; components store samples of posterior and prior exactly if asked to. Nonlinear components subtract what their linearisation point explains '
     'and move the state from there by the solution.',
     ['inputs', 'histories'], 'any precisions, designs, observations and offsets, for two parameters, two observations a set, up to three sets or times, block sizes 1 to 5',
     'Dropped, repeated or mixed-up evidence shows only for particular histories of updates; the tests solve a few fixed systems.',
     ['src/eustace/analysis/advanced_standard/linalg/linearsystem.py', 'src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py', 'src/eustace/analysis/advanced_standard/elements/element.py',
      'src/eustace/analysis/advanced_standard/components/spatial.py', 'src/eustace/analysis/advanced_standard/components/spacetime.py', 'src/eustace/analysis/advanced_standard/components/spatialdelayed.py'],
     [('MeasurementUpdate, solve, sample_joint', 'src/eustace/analysis/advanced_standard/linalg/linearsystem.py'),
      ('SpatialComponentSolution', 'src/eustace/analysis/advanced_standard/components/spatial.py'), ('SpaceTimeComponentSolution', 'src/eustace/analysis/advanced_standard/components/spacetime.py'),
      ('DelayedSpatialComponentSolution', 'src/eustace/analysis/advanced_standard/components/spatialdelayed.py')])

prop('P13', 'Stored component states and evidence come back for their own kind and time',
     'Whatever a component stores - states, marginal standard deviations, samples, prior samples or measurement updates - is read back unchanged for the same kind and time step, whatever else was stored '
     'in between and in whatever order. What was never stored reads as nothing, what has no file configured is refused, and the list of stored times is exactly that of the times stored. '
     'This holds in memory, in files, in files by index or by file name pattern, and in batches; names of different days differ.',
     ['histories', 'configurations'], 'every history of up to three writes of any kind and time, every kind of storage and form of file table, days 1850 to 2100',
     'Mixing kinds or times depends on the history of writes and the table of files; tests write once and read once.',
     ['src/eustace/analysis/advanced_standard/components/storage_files.py', 'src/eustace/analysis/advanced_standard/components/storage_inmemory.py', 'src/eustace/analysis/advanced_standard/components/storage_files_batch.py'],
     [('SpaceTimeComponentSolutionStorage_Files and others', 'src/eustace/analysis/advanced_standard/components/storage_files.py'),
      ('SpatialComponentSolutionStorage_InMemory and others', 'src/eustace/analysis/advanced_standard/components/storage_inmemory.py')])

prop('P11', 'Only satellite pixels that pass their quality flags enter the grid',
     'A pixel is selected exactly if its flags agree with the filter in the bits of the mask, none of its coordinates is the error value and it was not masked already; its value is kept. '
     'Pixels lacking an auxiliary value are hidden, a masked scalar uncertainty is refused unless nothing is left to apply it to, and missing coordinates are refused. '
     'Over all files of a day, cells hold count, total, mean, extremes, variance, sampling and propagated uncertainties of their selected pixels; missing and unreadable files are '
     'reported as such and add nothing; a day is the files of every five minutes in order.',
     ['inputs'], 'any 16-bit flags, masks and filters, any mask, 3 pixels; two files of two pixels, each there, missing or unreadable, in three arrangements over two cells',
     'Tests use a few flag words; bits that leak through a filter, sign extension and a pixel hidden in one file but counted in another need every combination.',
     ['src/eustace/satgrid/satellite_file.py', 'src/eustace/satgrid_iris/satellite.py', 'src/eustace/satgrid_iris/pipeline.py', 'src/eustace/satgrid_iris/modis.py'],
     [('SatelliteFile.find_qc_flag_indices', 'src/eustace/satgrid/satellite_file.py'), ('SatelliteCollection, SatelliteInputList', 'src/eustace/satgrid_iris/satellite.py'),
      ('GridBinPipelineSatellite', 'src/eustace/satgrid_iris/pipeline.py')])

prop('P14', 'Each component sees observations less what all others explain; output sums all',
     'Components of an analysis are solved in turn; each is given the observations of every time and loader exactly once, with the sum of what the other components '
     'explain at that moment as offset; loaders without observations give nothing. Expected values of the output are the sum over components, marginal uncertainties the root of '
     'the sum of squares, pointwise or as cell averages; samples are sums of samples of the same number, different numbers are refused; and the climatology fraction is the ratio of '
     'posterior to prior variance of the one spatial component, the fill value unless there is exactly one. Unknown fields and kinds of output are refused.',
     ['inputs', 'histories'], 'two or three components, two times, two loaders with 0 to 2 observations each, any values explained',
     'Using a stale or own contribution, dropping a loader or a time, or adding standard deviations shows only with several components whose estimates change.',
     ['src/eustace/analysis/advanced_standard/analysissystem.py', 'src/eustace/analysis/advanced_standard/components/component.py'],
     [('AnalysisSystem', 'src/eustace/analysis/advanced_standard/analysissystem.py')])

prop('P15', 'Grid-cell averages are area-weighted means over points of their own cell',
     'The value of a cell of an output grid is the mean of the field at points that divide the cell evenly, weighted by the cosine of latitude, whatever the number of points, '
     'the block size, and the direction of the axes; values are in the order of the grid, latitude by latitude, and unknown fields are refused.',
     ['inputs', 'configurations'], 'six grids of 2 to 5 by 2 or 3 cells with rising or falling axes, 1 to 3 points each way, blocks of 1 to 6 rows, any field',
     'Values moved to another cell or a wrong remainder of blocks depend on sizes, order and block; tests have one grid.',
     ['src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py'],
     [('Regridder, RegriddingRectilinearGridStructure, OutputRectilinearGridStructure', 'src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py')])

prop('P17', 'Prior precisions and their derivatives agree with the model they discretise',
     'The derivative every element gives for a hyperparameter is the derivative of its prior precision in that parameter, for all values of the hyperparameters, with sizes that agree; '
     'hyperparameters set are those got, and parameters of a combination reach their own part. Precisions are symmetric; on lattices each node is linked with exactly its neighbours, across '
     'wrapped dimensions too and in the node order of the design; on the sphere they are those of the finite elements of the mesh to the order of smoothness, and both have the variance asked for.',
     ['inputs', 'configurations'], 'any amplitudes and ranges between exp(-1.5) and exp(1.5); icosahedron, lattices of up to 3 x 4 nodes, up to 3 times, all elements',
     'Derivatives are tested at one value of the parameters and without wrapped or unequal dimensions; an error elsewhere only slows or misleads the optimisation.',
     ['src/eustace/analysis/advanced_standard/stats/spde/lattice.py', 'src/eustace/analysis/advanced_standard/stats/spde/spherical.py', 'src/eustace/analysis/advanced_standard/elements/covariate.py',
      'src/eustace/analysis/advanced_standard/elements/local.py', 'src/eustace/analysis/advanced_standard/elements/local_view.py', 'src/eustace/analysis/advanced_standard/elements/seasonal.py',
      'src/eustace/analysis/advanced_standard/elements/kronecker.py', 'src/eustace/analysis/advanced_standard/elements/kronecker_annual.py', 'src/eustace/analysis/advanced_standard/elements/factor.py',
      'src/eustace/analysis/advanced_standard/elements/combination.py', 'src/eustace/analysis/advanced_standard/elements/latitudespline.py'],
     [('LatticeSPDE.build_Q, build_dQdp', 'src/eustace/analysis/advanced_standard/stats/spde/lattice.py'), ('SphereMeshSPDE.build_Q, build_dQdp', 'src/eustace/analysis/advanced_standard/stats/spde/spherical.py'),
      ('prior_precision, prior_precision_derivative', 'src/eustace/analysis/advanced_standard/elements/element.py')])

prop('P16', 'Design of an element says what each observation sees of its state',
     'Biases are seen by exactly the observations whose effects name them, spatial biases through the basis at their place; the grand mean by all alike, latitude harmonics as cosine and sine of two and four '
     'times the latitude, seasonal elements as local mean and sine and cosine of the harmonics of the year, space-time elements as product of the weights in space and time, factors as product of both parts. '
     'A combination sees the sum of what its parts see, each of its own part of the state, in order. Function and matrix agree, the jacobian is the derivative of the function, rectified functions use '
     'magnitudes of weights, and hyperparameters of a combination reach their own part; a vector of wrong length is refused.',
     ['inputs', 'configurations'], 'two observations with any basis weights, effects, places and states; up to three harmonics; combinations of up to three elements',
     'Swapped blocks, offsets between parts or a missing term in a jacobian need several elements and unequal weights; tests compare fixed examples.',
     ['src/eustace/analysis/advanced_standard/elements/element.py', 'src/eustace/analysis/advanced_standard/elements/bias.py', 'src/eustace/analysis/advanced_standard/elements/spatial_bias.py',
      'src/eustace/analysis/advanced_standard/elements/grandmean.py', 'src/eustace/analysis/advanced_standard/elements/latitudeharmonics.py', 'src/eustace/analysis/advanced_standard/elements/seasonal.py',
      'src/eustace/analysis/advanced_standard/elements/kronecker.py', 'src/eustace/analysis/advanced_standard/elements/kronecker_annual.py', 'src/eustace/analysis/advanced_standard/elements/factor.py',
      'src/eustace/analysis/advanced_standard/elements/combination.py'],
     [('design_matrix, design_function, design_jacobian', 'src/eustace/analysis/advanced_standard/elements/element.py'), ('CombinationDesign', 'src/eustace/analysis/advanced_standard/elements/combination.py')])

prop('P18', 'Basis functions and covariates are interpolated from the nodes around a place',
     'On a lattice of one or two dimensions the weight of a node for an observation is the basis function at their distance, the short way round where a dimension wraps, for the node of that place; '
     'basis functions are one at their node, symmetric, between zero and one, and zero from their span on; piecewise linear weights add up to one. A gridded covariate is interpolated bilinearly '
     'between the four cells around a place, across the date line too, and rescaled; grids of unequal spacing are refused; the design of a covariate is its value at each observation.',
     ['inputs', 'configurations'], 'lines of 4 to 8 and planes of 3 by 3 or 4 nodes, wrapped or not, spans of 1 to 2.5 separations, any place; a grid of 3 by 4 cells, any covariate',
     'Wrapping, edges and node order matter only for places near a boundary; tests use a few places inside.',
     ['src/eustace/analysis/advanced_standard/stats/spde/lattice.py', 'src/eustace/analysis/advanced_standard/elements/geography_based.py'],
     [('LatticeMesh.build_A, LatticeSPDE.build_A, basis functions', 'src/eustace/analysis/advanced_standard/stats/spde/lattice.py'),
      ('GeographyBasedCovariateFunction', 'src/eustace/analysis/advanced_standard/elements/geography_based.py')])

prop('P19', 'Places on the sphere are found in their own triangle, in whole mesh and views',
     'The subdivided icosahedron has its triangles numbered in order and turning one way, every side shared by exactly two; a triangle is divided into three corners and the middle, with middles of sides on the sphere. '
     'A place is found in the triangle it lies in at any level, with weights of the corners that give the place back, on the sides too, and in coordinates of latitude and longitude; finer triangles lie in coarser ones. '
     'Designs have these weights at these corners and nothing elsewhere; views have exactly the triangles asked for (given, of a coarser triangle, of its neighbours, all), their corners as variables in order and '
     'their own finite elements, and see nothing outside. Merged parameters are at each point the mean over the views that have the point.',
     ['inputs', 'configurations'], 'any place inside or on the sides of triangles after 0 to 2 subdivisions (3 in thorough), any weights, three overlapping views with any parameters',
     'A place is found wrongly only in some sub-triangles; tests locate a few fixed points and build a few views.',
     ['src/eustace/analysis/mesh/mesh.py', 'src/eustace/analysis/mesh/locator.py', 'src/eustace/analysis/mesh/locator_search_planes.pyx', 'src/eustace/analysis/mesh/geometry.py',
      'src/eustace/analysis/advanced_standard/stats/spde/spherical.py', 'src/eustace/analysis/advanced_standard/stats/spde/spherical_view.py'],
     [('MeshIcosahedronSubdivision', 'src/eustace/analysis/mesh/mesh.py'), ('TriangleLocatorHierarchical', 'src/eustace/analysis/mesh/locator.py'),
      ('SphereMeshSPDE.build_A', 'src/eustace/analysis/advanced_standard/stats/spde/spherical.py'), ('SphereMeshView', 'src/eustace/analysis/advanced_standard/stats/spde/spherical_view.py')])

prop('P20', 'Optimised parameters: cost, exact gradient, partial inverse, one result',
     'The cost of hyperparameters is the log density of the posterior less that of the prior at the given states, summed over all times with evidence, and the gradient handed to the search is its derivative for every parameter. '
     'The partial inverse has the values of the inverse wherever the factor has an entry, whatever the order of variables, and zero elsewhere; traces and marginal variances are those of the inverse. '
     'A component is optimised from its present parameters; those found are taken over if the search succeeded and the former ones put back otherwise. A nonlinear component solved time by time moves each state from its own linearisation point.',
     ['inputs', 'histories'], 'partial inverse of 1 to 4 variables with 13 patterns of the factor and any values; cost and gradient for 2 variables, 2 parameters, up to 2 times; 2 times of a component',
     'A wrong sign or a missing term of a gradient only slows or misleads the search; tests compare a few finite differences.',
     ['src/eustace/analysis/advanced_standard/linalg/costfunction.py', 'src/eustace/analysis/advanced_standard/linalg/qinv.pyx', 'src/eustace/analysis/advanced_standard/linalg/sparse.py',
      'src/eustace/analysis/advanced_standard/linalg/optimize.py', 'src/eustace/analysis/advanced_standard/components/spatialdelayed.py'],
     [('MarginalGaussianCF, MarginalGaussianReplicateCF_InMemory', 'src/eustace/analysis/advanced_standard/linalg/costfunction.py'), ('Q_inv', 'src/eustace/analysis/advanced_standard/linalg/qinv.pyx'),
      ('DelayedSpatialComponentSolution.optimize, update', 'src/eustace/analysis/advanced_standard/components/spatialdelayed.py')])

prop('P21', 'Observations reach the analysis once each, with own place, error and biases',
     'From an observation source exactly the valid observations are passed on, in order, each with the latitude and longitude of its own location (longitudes from -180 to below 180), its value, and the reciprocal of its squared '
     'uncorrelated error as precision; the source stays as it was. A station observation is biased by the first later break of that station and by no other, none if there is no later break. Satellite observations over land and ocean '
     'share one bias each, those over ice one for each hemisphere. Biases apply only to sources whose files are all of the group asked for; unknown groups are refused.',
     ['inputs', 'configurations'], 'up to 3 observations of any validity at any of 3 places; up to 4 breaks of 4 stations at any times and any time of observation; any latitude; 6 groups and names of files',
     'Indices among valid, all and affected observations differ only if some observations are masked or some stations have several breaks.',
     ['src/eustace/analysis/advanced_standard/fileio/observation_structure_source_connector.py', 'src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py', 'src/eustace/outputformats/definitions.py'],
     [('ObservationStructureSourceConnector', 'src/eustace/analysis/advanced_standard/fileio/observation_structure_source_connector.py'),
      ('insitu_land_covariate_effect, global_satellite_effect, hemispheric_satellite_effect', 'src/eustace/analysis/advanced_standard/fileio/observation_source_surface_effects.py')])

prop('P22', 'Projected states and samples are area means over each grid cell',
     'The projection of a component onto a grid has for each cell the mean of the design over points spread evenly over the cell, weighted by the cosine of latitude, at the time set. States, samples and prior samples are those of the component '
     'and time set last: expected values, all or chosen samples, root mean square and standard deviation of samples do not depend on the number of blocks. Without state or samples nothing is projected; storage of unknown kind is refused; '
     'a design is dropped with a new time or component unless kept, and comes back as it was from a file.',
     ['inputs', 'histories'], '4 grids of 1 to 6 cells with 1 to 3 by 1 to 3 points a cell and any design; 3 cells in 1 to 3 blocks, 2 variables, 3 samples, any states; changes of time and component',
     'Weights, points of a cell and blocks matter only for grids and fields that are not uniform; there are no tests of the projector.',
     ['src/eustace/analysis/advanced_standard/fileio/output_projector.py'],
     [('Projector', 'src/eustace/analysis/advanced_standard/fileio/output_projector.py')])

prop('P23', 'Quality flags are set exactly where their checks fail; other flags stay',
     'Window flags say that fewer days than the threshold before (after) the day are constrained, calendar flags that no year before (after) has a constrained day, and the missing flag that fewer than three years have; days and years '
     'without a file do not count, and 29 February stands for 28 February of common years. Persistent outliers are cells with any outlier flag on at least the threshold of days. Uncertainty, influence, extreme, areal, marine and '
     'location flags hold exactly where the (smoothed) field crosses its limit; windows go around the globe in longitude and turn back at the first and last rows, whatever the size of the grid. Merging keeps the flags of both files '
     'and turns the low areal flag of the second into the marine flag. No check clears or sets flags of another.',
     ['inputs', 'configurations', 'histories'], 'any 16 bit flags; windows of 1 or 2 days either side and 4 or 5 years with any days missing, thresholds 1 to 4, 3 dates; running means of images of up to 200 cells; quartile, extreme and areal checks on 12 to 120 cells with one or two of any value',
     'Flags depend on neighbouring days, years and cells, on which files exist, and on block and grid sizes; there are no tests of these modules.',
     ['src/eustace/postprocess/window_check.py', 'src/eustace/postprocess/calendar_check.py', 'src/eustace/postprocess/outlier_window_check.py', 'src/eustace/postprocess/outlier_check.py',
      'src/eustace/postprocess/threshold_check.py', 'src/eustace/postprocess/cell_percentile_threshold.py', 'src/eustace/postprocess/merge_flag_files.py', 'src/eustace/postprocess/apply_mask.py'],
     [('local_window_constraint_checks', 'src/eustace/postprocess/window_check.py'), ('calendar_constraint_checks', 'src/eustace/postprocess/calendar_check.py'),
      ('compute_window_mean, block_iqr_by_range, areal_checks, extremes_checks', 'src/eustace/postprocess/outlier_check.py'), ('merged_flags', 'src/eustace/postprocess/merge_flag_files.py')])

prop('P24', 'Masked products hide exactly the cells the flags condemn, in every field',
     'A cell is masked when for some condition all flags to be set are set and none of those that prevent it. In the masked product of a day every field (temperature, uncertainty, influence, samples in order of their number, and the '
     'climatology, large-scale and local components) has the analysis values where no condition holds and is masked elsewhere; flags of two directories are combined; cells with more than 95 % water count as marine, which lifts the masking '
     'for missing calendar days and from 2013 on is itself masked. Flag files hold the flags, the day and a meaning for each bit in use. An operation handles every day of its month once.',
     ['inputs', 'configurations'], 'any 16 bit flags and values of 2 by 2 cells in one or two files, 3 conditions of any flags; 6 days around the end of 2012; any year, 8 pairs of month and offset; any range of years',
     'Each combination of 16 flags, second file, place and year can mask differently; a test samples a few combinations of one function.',
     ['src/eustace/postprocess/apply_mask.py', 'src/eustace/postprocess/flags.py', 'src/eustace/postprocess/operation_count.py'],
     [('compute_mask, apply_mask, masking_operation, save_flag_file, reset_marine_flag', 'src/eustace/postprocess/apply_mask.py'), ('operation_dates, operation_count', 'src/eustace/postprocess/operation_count.py')])

prop('P25', 'Air temperatures over ice come from screened inputs by the model of their ice',
     'A surface temperature over ice is used only if it is known, lies on land ice or on sea with at least 0.3 ice, is not unsteady (deviation above 7.07 K) or warm (above 278.15 K), was observed at night (minimum), by day (maximum) or both (mean), '
     'is within 10 K of the mean of its bins (mean) or 20 K of the daytime ones (maximum), and is not more than 10 K colder than the mean of two or more valid others of its kind of ice within two cells; all others are used. '
     'From it the air temperature is that of the coefficients of its hemisphere, ice and kind, with random, locally correlated, systematic and cloud uncertainties, and their root sum of squares with and without cloud as totals; there is no result where an input is '
     'missing. Results of both hemispheres are put at their own latitudes; inputs that do not fit together are refused.',
     ['inputs', 'configurations'], 'any values of one cell among 5 x 5, any temperatures of 5 x 6 cells with several missing, any coefficients and uncertainties of cells with any of them missing, 0 to 2 rows between the hemispheres',
     'Tests use single examples of screening and model; which of a dozen tests applies, and which coefficient meets which cell, are combinations.',
     ['src/eustace/surfaceairmodel/model_ice_input_processing.py', 'src/eustace/surfaceairmodel/model_ice.py'],
     [('IceSurfaceTemperatureQualityControl', 'src/eustace/surfaceairmodel/model_ice_input_processing.py'), ('ModelIce, ModelIceProcessor, ModelIceObservableProcessor', 'src/eustace/surfaceairmodel/model_ice.py')])

prop('P26', 'Satellite products of a day merge cell by cell without mixing sources or days',
     'A cell of a merged product has the mean of exactly the sources with a value there, and the uncertainty of that mean with the correlation given for each pair of sources (none for total uncertainties); it is missing only where no source has a value. '
     'The product keeps the original fields under the name of their source, the day, and a comment naming the sources. Sources without files are left out together with the correlations of their pairs; a source with one of its two files, files of different days, '
     'or a wrong number of correlations are refused with nothing removed. Inputs are removed once both outputs are written; a single source is renamed; outputs of other names than expected are refused.',
     ['inputs', 'configurations'], '2 or 3 sources with any values, uncertainties, correlations in [0, 1] and missing cells; 4 sources with any files missing; 2 days',
     'Which sources lack a cell or a file decides which values and correlations meet; tests fix one pattern of three sources.',
     ['src/eustace/outputformats/filesmerger.py', 'src/eustace/outputformats/merge_multiple_outputs.py'],
     [('FilesMerger, clean_list_of_outputs_to_merge', 'src/eustace/outputformats/filesmerger.py'), ('merge_single_day_outputs', 'src/eustace/outputformats/merge_multiple_outputs.py')])

prop('P27', 'A search lists each file of a data set once, with the time and tags in its name',
     'A file whose path fits a subset\'s patterns is listed there exactly once, with the time its date characters give and the tags of its own path; a field used again (year, month, ..., or a tag, also in lower case) must have the same characters, all of which stand for '
     'themselves, as do dots; a question mark stands for any one character. Date characters that are no date are listed as errors; a file that fits no subset is listed as not matching; two files of one time and tags are both listed. Elements of archives belong to their '
     'own archive, others are unused. Each file has the checksum and size of its own path, whatever fails for others. Building a catalogue searches exactly the data sets asked for, keeps those of the catalogue it updates and gives the result a new identity.',
     ['inputs', 'configurations'], 'any characters in 4 shapes of dates and 5 of tags (1 to 3 characters), 2 archives with 3 elements, whole searches of up to 5 files, 3 files to check',
     'File names are text of any characters; a test tries a few well-formed ones.',
     ['src/eumopps/catalogue/namepatterns.py', 'src/eumopps/catalogue/storage.py', 'src/eumopps/catalogue/dataset.py', 'src/eumopps/catalogue/search.py', 'src/eumopps/catalogue/build.py'],
     [('NamePattern, nested_search', 'src/eumopps/catalogue/namepatterns.py'), ('CatalogueDataSetSubset', 'src/eumopps/catalogue/dataset.py'), ('build_from_datasets', 'src/eumopps/catalogue/build.py')])

prop('P28', 'Land and ocean air temperature products hold the model output of their day',
     'Each field of a product is the model\'s field of the corresponding name, cell by cell, for the day in the model\'s file; a total uncertainty is the root sum of squares of exactly its components; a cell is missing where the model has none. Over land, cells with '
     'minimum above maximum are missing in all fields, and only these. The models are run once for each day with its own inputs (day and night files, ancillary data) and outputs, and temporary files removed; a failed run is an error; command lines hand each argument to its own place. An '
     'output file has the fields of its list on the axes of the globe, midnight to midnight. Read back, each cell is one observation with its own place, day, value and uncertainties.',
     ['inputs', 'configurations'], 'any values and missing cells of fields of up to 2 by 2 cells, 2 by 4 in files; runs of 1 to 3 days',
     'Two dozen fields of similar names could be exchanged, and missing cells handled wrongly, in ways an example of one file does not show.',
     ['src/eustace/surfaceairmodel/fileio/', 'src/eustace/surfaceairmodel/run_land.py', 'src/eustace/surfaceairmodel/run_ocean.py', 'src/eustace/surfaceairmodel/run_ice.py', 'src/eustace/surfaceairmodel/model_land.py'],
     [('RemapNetCDF', 'src/eustace/surfaceairmodel/fileio/remap.py'), ('apply_land_post_processing', 'src/eustace/surfaceairmodel/fileio/post_processing.py'), ('ConsistentModelOutputNetCDF', 'src/eustace/surfaceairmodel/fileio/consistent.py'),
      ('ObservationSourceCubeMapGrid', 'src/eustace/surfaceairmodel/fileio/cubemap.py')])

prop('P29', 'Readings of stations, ships and lakes become observations of own place and day',
     'Each reading in a file becomes one observation with its own day, place (longitudes -180 to 180), uncertainty and value in kelvin. Of stations only the day wanted is given, nothing if the file lacks it; a reading is masked exactly if it is missing, its own quality '
     'flag is set and quality control is wanted, its station is held out, or its height is needed but missing. With altitude adjustment it is shifted by 6.5 K per km of its station above the reference surface, and 1.1 K per km of difference is added to its uncertainty '
     'in squares. Columns of ship files are those the format names; each lake is one place. Break points are those with a likelihood, of the station wanted, with own time and station. A prepared day has the source\'s observations under the identity of its table of '
     'places; if the places differ it is refused.',
     ['inputs', 'configurations'], '2 days by 2 stations with any values, flags and missing readings; 1 or 2 ships, 1 to 3 lakes, 3 break points, all of any values; 3 places',
     'Which combination of day wanted, flags, missing values and stations held out masks a reading is not covered by any test that runs without the original data.',
     ['src/eustace/preprocess/fileio/', 'src/eustace/surfaceairmodel/fileio/lake.py', 'src/eustace/analysis/preparedailyfixed.py', 'src/eustace/analysis/preparedailymobile.py', 'src/eustace/analysis/preparelocationlookup.py'],
     [('ObservationSourceInsituLand', 'src/eustace/preprocess/fileio/insitu_land.py'), ('AltitudeAdjustment', 'src/eustace/preprocess/fileio/height_adjustment.py'), ('ObservationSourceInsituOceanHadNMAT2', 'src/eustace/preprocess/fileio/insitu_ocean.py'),
      ('ObservationBreakPointSourceInsituLand', 'src/eustace/preprocess/fileio/insitu_land_breakpoints.py'), ('run_day', 'src/eustace/analysis/preparedailyfixed.py')])

prop('P30', 'Station and global files hold what was put in; only good files verify',
     'Samples of stations come on a time axis that has each measurement time once, in order (times less than 0.0005 days apart are one, also around midnight); each sample is at its own time and station, all else is missing, and a station without description changes no '
     'other. Breaks keep order, station, amplitude and times, detection periods their quality. Station files and global field files give back names (to 32 characters), times and their one-day bounds, centres of cells, values to half a packing step, missing cells and '
     'the description of each variable; a variable made from a template has its description except what was given. A day\'s file is named by its quantity, collection and date. Verification always ends with a verdict: pass if and only if every attribute, type, '
     'variable attribute and dimension required is as specified; station data need both files; exit status zero means passed.',
     ['inputs', 'configurations'], '3 samples at any times of 4 days, 2 or 3 stations, 3 breaks, any values and missing cells; every single departure from the specifications, and any combination in small ones',
     'Which samples share times and stations, and in which way a file departs from its specification, has more combinations than tests try; times just before and after midnight were never tried.',
     ['src/eustace/outputformats/stationdata.py', 'src/eustace/outputformats/stations.py', 'src/eustace/outputformats/filebuilder.py', 'src/eustace/outputformats/outputvariable.py', 'src/eustace/outputformats/globalfield_filebuilder.py', 'src/eustace/outputformats/verify/'],
     [('StationData', 'src/eustace/outputformats/stationdata.py'), ('FileBuilderStationData', 'src/eustace/outputformats/stations.py'), ('FileBuilder', 'src/eustace/outputformats/filebuilder.py'), ('OutputVariable', 'src/eustace/outputformats/outputvariable.py'),
      ('FileBuilderGlobalField, DatasetAttributesGlobalField', 'src/eustace/outputformats/globalfield_filebuilder.py'), ('Verifier', 'src/eustace/outputformats/verify/verify.py')])

prop('P31', 'Iterated analysis reads the latest solutions and writes data sets of its own',
     'In the descriptors generated for any number of iterations, each iteration processes climatology, large scale and local component in this order. An operation reads, of every other component, the solution of the same iteration if that component comes earlier in it and '
     'of the iteration before otherwise (nothing in the first); it solves from the measurements of its own component and iteration. It writes only data sets it declares, under names with its iteration that no other operation has, in files named after the data set (by day, '
     'month or one for all, as its step). Samples of solution and prior are drawn in the last iteration only, and the output operation reads the solutions and samples of the last iteration. Only known input sources are kept, dates and biases are those asked for, and a '
     'descriptor with an empty field is refused on request.',
     ['inputs', 'configurations'], 'any iteration of up to 60; whole descriptors of 1 to 4 iterations, single and in batches',
     'Names of data sets join the operations; a wrong index for some iteration uses outdated solutions or overwrites files without any error.',
     ['src/eumopps/catalogue/jsonfiller.py', 'src/eustace/analysis/advanced_standard/examples/jsonfiller.py'],
     [('FullstaceJsonFiller', 'src/eumopps/catalogue/jsonfiller.py')])

prop('P32', 'Gridded satellite files hold the fields of the time or day asked for',
     'A day asked for (8 digits) means the pair of temperature and auxiliary file of every five minutes of that day, once each and in order; a time asked for (12 digits) the pair of that time. Temperatures, flags and coordinates are read from the first file of the pair, '
     'uncertainties from the other. The output file has every field of the aggregation under its own name: temperatures of 180 to 350 K to 0.0026 K, uncertainties to 60 K to 0.0006 K, variances to 2000 K2 to 0.0000026 K2, counts to 32000 exactly; cells flagged invalid, and '
     'only these, are missing. It is written, with the name and source asked for, exactly if there are fields, and the status says so.',
     ['inputs', 'configurations'], 'files of 2 and 6 cells with any values of any one field and flagged cells; storage of each field for any value in range; 4 days and times of day; 2 by 2 pixels of any values and flags',
     'Packing into 16 bits fails only at the ends of the range, and exchanged fields of similar size look plausible; the tests build one file.',
     ['src/eustace/satgrid/filebuilder.py', 'src/eustace/satgrid/command.py', 'src/eustace/satgrid/satellite_file.py', 'src/eustace/satgrid_iris/command.py', 'src/eustace/satgrid_iris/satellite.py', 'src/eustace/satgrid_iris/saver.py'],
     [('FileBuilderAggregateField', 'src/eustace/satgrid/filebuilder.py'), ('FilenameList, run', 'src/eustace/satgrid/command.py'), ('SatelliteFile', 'src/eustace/satgrid/satellite_file.py')])
