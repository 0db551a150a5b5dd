"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
R='karabo_data/reader.py'; M='karabo_data/read_machinery.py'; G='karabo_data/geometry2/__init__.py'
WF=('well-formed files: train IDs strictly increasing (0 = padding at the end), index entries contiguous from row 0, '
    'files of one source holding disjoint train ranges')

p('C01','Selecting trains keeps exactly the designated trains',
  "Selecting trains by ID or by position, with a slice or a list, gives a collection whose train IDs are, in increasing order and without repeats, exactly those of the original collection that the selector designates: ID slices are half-open, their ends may be open or name trains that do not exist, and unknown IDs in a list are ignored. A by-ID selector lying entirely before the first or after the last train, or listing only unknown IDs, raises ValueError. Everything recorded for the selected trains stays readable with unchanged content, and nothing of any other train is returned.",
  ['inputs','histories'], f'every collection of {WF}; every sequence of train selections with non-negative or negative indexes, positive steps and any integer IDs, applied one after another',
  'Tests sample two fixed runs without gaps in their train IDs; the slice ends that fall into gaps, before or after the run, steps, repeated selections and multi-file layouts are not covered.',
  [R,M],[('select_trains','reader.py DataCollection.select_trains'),('tid -> position','read_machinery.py _tid_to_slice_ix'),('file filtering','reader.py DataCollection.select_trains / __init__')],
  observe=['DataCollection.train_ids','get_array','train_from_id'])
p('C02','Selecting and combining sources and keys is exact set algebra',
  "Selecting by glob patterns, by a list of pattern pairs or by an explicit mapping keeps exactly the (source, key) pairs that are designated and were selected before (a mapping entry without keys designates all keys the source has in the collection; a pattern for a control key also matches it with '.value' appended); deselecting keeps exactly the other pairs; a union holds exactly the pairs and trains of its operands, with all their data. A pattern that matches nothing, an unknown source or an unsupported kind of selection raises an error instead of silently selecting nothing. None of these operations changes the collections it is applied to.",
  ['inputs','histories'],'every collection, every sequence of select/deselect/union calls with glob patterns built from *, ?, [..], [!..] and literal characters, pattern lists, and mappings naming keys the source has',
  'Tests apply single selections to fixed mock runs; they cannot cover chains of operations, where an earlier key restriction must survive a later wildcard.',
  [R,M],[('selection expansion','reader.py DataCollection._expand_selection/_select_glob'),('select/deselect/union','reader.py DataCollection'),('merging','read_machinery.py union_selections'),('visible keys','reader.py keys_for_source')],
  observe=['all_sources','keys_for_source','train_ids','trains'])
p('C03','Arrays hold exactly the indexed rows, in train order, correctly labelled',
  "Reading one key of a source as an array returns, for the selected trains in increasing train order, exactly the entries the files' index assigns to these trains: each once, in stored order, unaltered, with the requested region of interest applied, and labelled with the ID of the train it belongs to. The lazy (Dask) array of the same key has the same entries. If the selected trains have no entries the result is an empty array of the right item shape and type.",
  ['inputs','configurations'],f'every number and layout of {WF}, every subset of selected trains, any number of entries per train including zero, any region of interest',
  'Tests read whole mock files with uniform counts; which rows a fragmented selection over several files with varying counts must return is a statement over all index contents.',
  [R,M],[('chunks','reader.py _find_data_chunks, read_machinery.py contiguous_regions, DataChunk'),('assembly','reader.py get_array, get_dask_array, _expand_trainids')],
  observe=['get_array','get_dask_array'])
p('C04','All ways of reading one train agree and return its indexed data',
  "For every selected train, reading it by ID, by position or by iterating yields the same data: for each source of the collection an entry with its name and train ID and, for every selected key with data in that train, exactly the entries the index assigns to it (a single entry without the entry dimension), and nothing for keys without data. Iteration visits each selected train exactly once in increasing order; requiring all data skips exactly the trains in which some selected source or key has none. Asking for a train that is not selected raises KeyError.",
  ['inputs','histories'],f'every collection of {WF} (including files with data of control sources for only part of the trains), every selection of sources, keys and trains',
  'Tests compare a few trains of uniform mock data; per-iterator caches, sources spread over several files, and trains with missing data need arbitrary layouts.',
  [R],[('lookup','reader.py DataCollection._find_data, train_from_id, train_from_index'),('iteration','reader.py TrainIterator, _check_data_missing')],
  observe=['train_from_id','train_from_index','trains'])
p('C05','Tables (series, data frames, counts) align every value with its train',
  "A series, data frame or count table for selected data has one row per entry (per train, for counts), in train order, for exactly the selected trains: every value stands in the row of the train (and pulse, for data with several entries per train) the index assigns it to, every count is the number of entries the index records for that train (1 for control data), and a field without any data gives an empty table. A data frame has one column per selected one-dimensional field and shows a missing value exactly where a field has no entry.",
  ['inputs','configurations'],f'every collection of {WF}, every selection of trains and of one-dimensional fields; data with several entries per train has pulse IDs and a constant number of entries per train where it has an extra length-1 dimension',
  'Tests check shapes and a few labels on uniform data; alignment must hold for every pattern of counts and every train selection.',
  [R],[('series','reader.py get_series, _expand_trainids'),('counts','reader.py get_data_counts'),('frames','reader.py get_dataframe')],
  observe=['get_series','get_dataframe','get_data_counts'])
p('C06','A written file reads back as the same data',
  "Writing a collection to a new file and opening that file gives a collection with the same trains, the same sources and keys, and for every train the same data for every source and key, including trains and keys for which there is none. The source files are not modified.",
  ['inputs','histories'],f'every collection of {WF}, after any selection of sources, keys and trains, including control sources missing from some of the trains and sources without any entries',
  'Tests write one mock run with every train complete; the index written for partial, empty and re-selected data cannot be settled by samples.',
  ['karabo_data/writer.py',R],[('index generation','writer.py FileWriter._generate_index, _make_control_index'),('file layout','writer.py FileWriter.write*'),('reading back','reader.py')],
  observe=['DataCollection.write','H5File'])
p('C07','Virtual files show the same data as the files they refer to',
  "A virtual file written for a collection, opened from any working directory, gives for every train and every source and key that has data the same values as the collection itself, without other entries. A single virtual dataset holds exactly the entries of its source and key for the selected trains, in train order, and the source files are not modified.",
  ['inputs','configurations'],f'every collection of {WF} opened through absolute or relative paths, after any selection of sources, keys and trains',
  'Tests build virtual files from uniform runs opened by absolute path and compare shapes; offsets for fragmented selections and partial control data are not sampled.',
  ['karabo_data/writer.py',R],[('virtual layout','writer.py VirtualFileWriter._assemble_data'),('single dataset','reader.py get_virtual_dataset')],
  observe=['write_virtual','get_virtual_dataset'])
p('C08','Opening files reports exactly what they record, in every format version',
  "Opening a file or run directory reports exactly the train IDs (ignoring zero padding), the control and instrument sources, and the keys recorded in the files, whichever version of the file format they use and whichever of the two ways of storing the index (first/count or first/last/status) they contain; the number of entries per train is the recorded one in both. A file that cannot be opened is skipped with a message naming it and does not affect the others; if no file is usable, opening fails with an exception.",
  ['inputs','fault_sequences'],'every run of files in format 0.5 or 1.0 (mixed freely), with or without padding, index stored either way, several groups per source, blank entries in source lists, any subset of files unreadable',
  'Tests use one or two hand-made files per version.',
  [R],[('file metadata','reader.py FileAccess.__init__, _read_data_sources, format_version'),('index','reader.py FileAccess._read_index, get_index'),('keys','reader.py get_keys'),('opening','reader.py DataCollection.from_paths, RunDirectory, H5File')],
  observe=['H5File','RunDirectory','all_sources','train_ids','keys_for_source'])
p('C09','Conflicting data for a source is rejected, everything else accepted',
  "Combining files or collections raises ValueError if and only if some source has data for the same train ID in two different files; the message names every source concerned. The order in which files are given does not matter.",
  ['inputs','configurations'],'every set of files with any sources and any train IDs, including interleaved train ranges and more than two files per source',
  'Tests try one conflicting and a few conflict-free unions.',
  [R],[('conflict check','reader.py DataCollection._check_source_conflicts'),('identity of files','reader.py FileAccess.__eq__/__hash__, union')],
  observe=['RunDirectory','union'])
p('C10','The run cache never changes what a run contains',
  "Opening a run directory gives the same trains, sources and data with no cache file, with a valid one, with a stale one (files added, removed, replaced or touched since), with one that is unreadable, truncated or not JSON, and when the cache cannot be written; entries that do not match a file's current size and modification time are ignored. After opening, the cache on disk, if writable, describes the run's current files, and opening never modifies the data files.",
  ['histories','inputs','fault_sequences'],'every history of opening a run and adding, removing, rewriting or touching its files or cache file, including denied permissions',
  'Tests open one run twice; the property is about all histories between two openings.',
  ['karabo_data/run_files_map.py',R],[('validation of entries','run_files_map.py RunFilesMap.load/get'),('saving','run_files_map.py RunFilesMap.save'),('use','reader.py DataCollection.from_paths, RunDirectory')],
  observe=['RunDirectory','karabo_data_map.json'])
p('C11','Cache files are replaced atomically',
  "At every point of writing the run cache, including after any failure or interruption of any step, the cache file at its final path is either what it was before or the complete new content, never a partial or garbled file. A failed write reports the failure and leaves no temporary file behind; a successful one leaves exactly the new content.",
  ['crash_points','fault_sequences'],'every step of writing the cache at which an exception, signal or crash can occur, for any previous content and any new content',
  'Tests write the cache once without faults.',
  ['karabo_data/run_files_map.py'],[('atomic write','run_files_map.py atomic_dump')],
  observe=['cache file content','directory listing'])
p('C12','Detector data is assembled with the right pulses, trains and modules',
  "An AGIPD, LPD or DSSC data object covers exactly the requested modules, and exactly the trains where at least the required number of them have data. The array it returns for a key holds, for every module, train and pulse matching the pulse selection (by pulse ID or by position within the train), exactly the value stored for them and a missing value where a module has none; iterating over trains gives the same values for each train in which all modules have data.",
  ['inputs','configurations'],f'every run of detector modules in {WF}, with trains missing from some modules or files, any constant number of frames per train with increasing, distinct pulse IDs within a train, any selection of non-negative pulse IDs or positions (integers, lists, slices with positive step)',
  'Tests use complete mock detectors with one fixed set of pulse IDs.',
  ['karabo_data/components.py',R],[('trains and modules','components.py MPxDetectorBase.__init__, _identify_sources, _select_trains'),('pulse selection','components.py _check_pulse_selection, _select_pulse_ids, _select_pulse_indices'),('assembly','components.py _get_module_pulse_data, _guess_axes, get_array'),('iteration','components.py MPxDetectorTrainIterator')],
  observe=['get_array','trains','train_ids'])
p('C13','Virtual CXI files map every frame to its train, pulse and module',
  "The virtual CXI file written for a detector has one frame per train and pulse in train order; for every frame and module, the image, gain, mask and cell-ID entries are exactly the values stored for that train, pulse and module, and fill values where that module has no data for the train. Train and pulse IDs are listed per frame and match the data, and writing fails instead of producing a file if the modules' pulse IDs disagree or some frame has none.",
  ['inputs','configurations'],f'every detector run in {WF}, raw (with or without the extra dimension) or calibrated, with any constant number of frames per train and any pattern of trains missing from modules or files',
  'Tests check shapes and one module of a mock run in which every module has the same trains.',
  ['karabo_data/write_cxi.py','karabo_data/components.py'],[('frame mapping','write_cxi.py VirtualCXIWriter._map_chunk'),('pulse IDs','write_cxi.py collect_pulse_ids'),('layouts','write_cxi.py collect_data, write')],
  observe=['write_virtual_cxi'])
p('C14','Stacking puts each module at its own index',
  "Stacking a train's detector data places the array of module n at index n of the stack axis, whichever modules are present and in whatever order, and fills absent or empty modules with the fill value (by default nan for floating-point data and 0 for integers); stacking other data orders devices by the integers in their names. The array-like view obtained without copying equals the copied array under every supported indexing, including repeated indexing and any stack axis. Mismatched types or shapes, out-of-range modules, non-detector sources and empty input raise errors.",
  ['inputs','configurations'],'every set of modules, array shape, dtype, stack axis, fill value and index expression (one integer module or all modules, any slices, integers or an ellipsis in other dimensions), and every order of accesses',
  'Tests stack complete mock data on the default axis.',
  ['karabo_data/stacking.py'],[('stacking','stacking.py stack_data, stack_detector_data'),('view','stacking.py StackView')],
  observe=['stack_data','stack_detector_data'])
p('C15','All geometry views agree on where every pixel is',
  "For every detector geometry the position array gives each pixel the coordinates of its tile's corner plus its slow-scan and fast-scan offsets within the tile times the tile's step vectors (including the half-pixel shift of DSSC's odd rows), with the pixel centre or first corner as requested; converting data coordinates to positions gives the same positions for AGIPD and LPD; splitting a module into tiles yields exactly the regions those positions refer to. The pyFAI distortion array contains the corners of every pixel at these positions, in z, y, x order, shifted only by a common non-negative-making offset in x and y if requested.",
  ['inputs'],'every pixel of AGIPD-1M, LPD-1M and DSSC-1M geometries with arbitrary tile corners and step vectors (real arithmetic; 32-bit storage rounding in the distortion array), any in-range real data coordinates',
  'Tests check shapes and a handful of pixels of one geometry each.',
  [G],[('positions','geometry2 get_pixel_positions, _adjust_pixel_coords'),('coordinates','geometry2 data_coords_to_positions, _module_coords_to_tile'),('tiles','geometry2 _tile_slice, split_tiles'),('distortion','geometry2 to_distortion_array, _distortion_array_slice')],
  observe=['get_pixel_positions','data_coords_to_positions','to_distortion_array'])
p('C16','Fast image assembly places every pixel exactly once',
  "Assembling detector data on the pixel grid writes every data value, unaltered, to the grid cell of that pixel given by its tile's rounded corner and axis-aligned directions, relative to the returned centre; the output is just large enough for all tiles. Cells not covered by any tile are nan in a new output array (which is floating-point) and are left untouched in an array passed in; leading dimensions are preserved, and assembling again with the same geometry gives the same result.",
  ['inputs','configurations'],'every geometry whose tiles snap to axis-aligned, non-overlapping places, every combination of tile orientations (transposed and/or flipped), any data and any leading dimensions, new or supplied output arrays',
  'Tests compare a few pixels for the standard quadrant layout only.',
  [G],[('snapping','geometry2 GeometryFragment.snap, GridGeometryFragment'),('assembly','geometry2 SnappedGeometry'),('API','geometry2 position_modules_fast, output_array_for_position_fast')],
  observe=['position_modules_fast','output_array_for_position_fast'])
p('C17','CrystFEL geometry files describe exactly the geometry written',
  "A geometry written to a CrystFEL file and loaded again (with the detector distance and gain which the format requires) has the same tile corners, step vectors and tile sizes to rounding error; each panel refers to the slices of the data that belong to that tile (within the module, or within all modules joined along the slow-scan axis if there is no module dimension), names the module where there is a module dimension, and the file contains the data path, mask path, dimensions, detector distance, photon energy and gain values given. Writing without a frame dimension raises ValueError.",
  ['inputs','configurations'],'every AGIPD-1M and LPD-1M geometry (any tile corners and step vectors, including non-zero z), every order of frame, modno, ss, fs and constant dimensions',
  'Tests read back one standard geometry per detector.',
  ['karabo_data/geometry2/crystfel_fmt.py',G],[('writing','crystfel_fmt.py write_crystfel_geom, frag_to_crystfel, get_rigid_groups'),('reading','geometry2 from_crystfel_geom, GeometryFragment.from_panel_dict')],
  observe=['write_crystfel_geom','from_crystfel_geom'])
p('C18','Validation reports a problem exactly when there is one',
  "Validating a file or run directory reports at least one problem if and only if there is one of: for a run, a file that cannot be opened or no usable file, zero train IDs before the last train ID, train IDs not strictly increasing, an index referring to data outside its dataset, an index that is not one-dimensional, has fewer entries than there are trains, does not start at 0, or has gaps or overlaps, or, for a run, a current cache entry contradicting its file; it finishes without another error on every such file. Every reported problem names the file and, where there is one, the dataset concerned.",
  ['inputs'],'every content of the train-ID dataset and of the instrument index datasets (any unsigned 64-bit values, any lengths and dimensions, either index representation with status 0 or 1, including no trains) of otherwise readable files without conflicts between them',
  'Tests validate one healthy run and expect no problem.',
  ['karabo_data/validation.py'],[('train IDs','validation.py FileValidator.check_trainids'),('indexes','validation.py check_indices, check_index_contiguous'),('runs','validation.py RunValidator')],
  observe=['karabo-data-validate','FileValidator.run_checks','RunValidator.run_checks'])
p('C19','Streamed messages carry exactly the data fed, in order',
  "Every train fed to the streamer is sent exactly once when requested, also after it was told to stop, in the order fed, as messages from which the original sources, keys and values (numbers and arrays of any memory layout, with type and shape) and metadata are recovered exactly; the fed data is not modified. Feeding blocks only while the given number of trains is waiting. Serving files sends the selected data of every train.",
  ['inputs','schedules'],'every train dictionary of values which msgpack can represent, real numpy numbers, and numeric or boolean arrays (unchanged until sent), with or without separate metadata or dummy timestamps, in both protocol versions; every interleaving of feeding and requesting',
  'Tests stream one train with fixed content.',
  ['karabo_data/export.py'],[('serialisation','export.py ZMQStreamer._serialize'),('queue','export.py ZMQStreamer.feed, REPInterface.run')],
  observe=['ZMQStreamer'])
p('C20','Geometry constructors place every tile at its documented position',
  "Building an AGIPD or LPD geometry from quadrant positions, or an LPD or DSSC geometry from a geometry file and quadrant positions, places every tile of every module at the position and orientation documented for that detector, for any quadrant positions, unit and gaps; all lengths are in metres in the result, and changing the unit together with the numbers leaves the result unchanged.",
  ['inputs'],'every real quadrant position, positive unit and non-negative gaps; every content of the geometry file (real arithmetic)',
  'Tests check one standard layout and a few rounded values.',
  [G],[('constructors','geometry2 AGIPD_1MGeometry.from_quad_positions, LPD_1MGeometry.from_quad_positions, from_h5_file_and_quad_positions (LPD, DSSC)')],
  observe=['modules[..].corner_pos/ss_vec/fs_vec','get_pixel_positions'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
