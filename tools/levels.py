NOT_APPLICABLE = {}
#: properties whose deciding functions are under contract (the others also
#: have contracts on some functions, but are mainly decided by the bounded part)
PROVED = {
    'C01': 'select_trains and _tid_to_slice_ix are proved for all collections and selectors; that the opened data of '
           'the selected trains is unchanged is C03; DataCollection.__init__ and chains of selections are bounded.',
    'C02': 'select, deselect, union and union_trains are proved for arbitrary earlier selections of a representative '
           'universe of sources and keys and representative patterns and mappings; DataCollection.__init__ and '
           'histories of several operations are bounded.',
    'C03': '_find_data_chunks, contiguous_regions, get_array and get_dask_array are proved for all file layouts; '
           'data of several dimensions is proved for 0 and 2 extra dimensions; h5py, dask and xarray are trusted.',
    'C04': 'train_from_id, train_from_index and trains() are proved for any number of files, trains and entries, for '
           'representative sets of sources (two) and keys (three per source); h5py is trusted.',
    'C05': 'get_series, get_data_counts and get_dataframe are proved for any trains, entries and selections, for one to '
           'three files of the source; pandas and h5py are trusted, joining columns by label is left to pandas.',
    'C06': 'FileWriter.write with everything it calls is proved for any trains and entries, for representative sources '
           'and keys and any selection of them; the data read is C03 (its contract); h5py is trusted.',
    'C07': 'Virtual datasets: _assemble_data is proved for one to three chunks of any size, and which datasets are written '
           'for any collection; get_virtual_dataset is bounded; h5py virtual layouts are trusted.',
    'C08': 'Opening, source lists, indexes of either kind and skipping of unusable files are proved for any number of '
           'entries and files; keys and collections for representative sets of objects and files; h5py is trusted.',
    'C09': '_check_source_conflicts is proved for any number of sources, files and trains; how files are '
           'identified and union are bounded.',
    'C10': 'load, get and save are proved for any stat results, cache states and failures, for representative numbers '
           'of files (three); whole histories of opening and changing a run are bounded.',
    'C11': 'atomic_dump is proved against an environment in which every call may fail, be interrupted or be the last '
           'before a crash.',
    'C12': 'Selection of pulses, reading of modules (one run of consecutive trains in one or two files), assembling of '
           'modules and iteration over trains are proved for any trains, pulses and selections; more runs and files are '
           'bounded; xarray and pandas are trusted.',
    'C14': 'stack_data, stack_detector_data and StackView are proved for arrays of any shape and content and any indexes, '
           'for representative numbers of modules and dimensions and names of devices.',
    'C15': 'Pixel positions, split_tiles, coordinate conversion and distortion arrays are proved for all tile positions '
           'and vectors; floats are reals; that the distortion offset is the smallest one is bounded.',
    'C16': 'Snapping, the size of the grid and the placing of every tile are proved for all axis-aligned geometries of '
           'the real numbers of tiles; frame data of 0 or 1 leading dimensions; floats are reals.',
    'C17': 'Writing AGIPD, LPD and DSSC geometries is proved for all tile positions and vectors and all given values, '
           'for representative combinations of dimensions; .geom parsing rules and number formatting round trips are '
           'assumed (floats are reals); real files with cfelpyutils are bounded.',
    'C18': 'All checks of train IDs, indexes and runs are proved for any content (unsigned 64-bit arithmetic with '
           'overflow), any number of files; check_indices for representative sets of sources and groups; h5py trusted.',
    'C19': 'Serialisation is proved for arrays of any shape, content and layout in representative dictionaries; the '
           'sending loop for any interleaving and any number of trains, given a FIFO queue and atomic ZMQ calls.',
    'C20': 'Building geometries from quadrant positions (AGIPD, LPD) and from HDF5 files (LPD, DSSC) is proved for all '
           'positions and offsets; floats are reals (constants compared to a relative tolerance of 1e-12).',
}
TECH_DEFAULT = 'contracts on the real functions, executed on generated inputs (bounded stand-in)'
TECH_PROOF = 'contract-based deductive verification of the real functions (SMT), with bounded stand-ins where stated'
TECH = {p: TECH_PROOF for p in PROVED}
LEVEL_DEFAULT = 'exploration'
LEVEL = {p: 'proof' for p in PROVED}
NOTE_DEFAULT = 'The contract of the property is evaluated on generated inputs against the real code (bounded).'
NOTE = dict(PROVED)