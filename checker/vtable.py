"""Functions and constants whose whole behaviour is the subject of a property: each is compared with its reviewed reference
definition (equiv.Validator).  One line by class or module: names separated by blanks."""

O = "observations.observation.EddiesObservations."
M = "observations.observation."
T = "observations.tracking.TrackEddiesObservations."
TM = "observations.tracking."
N = "observations.network.NetworkObservations."
NM = "observations.network."
NW = "observations.network.Network."
GO = "observations.groups.GroupEddiesObservations."
GM = "observations.groups."
C = "tracking.Correspondances."
D = "dataset.grid."
GD = "dataset.grid.GridDataset."
U = "dataset.grid.UnRegularGridDataset."
R = "dataset.grid.RegularGridDataset."
GC = "dataset.grid.GridCollection."
G = "generic."
P = "poly."
F = "eddy_feature."
A = "featured_tracking.area_tracker."
OLD = "featured_tracking.old_tracker_reference."

TABLE = {
    "C01": {
        O: "tracking match cost_function cost_function_common_area mask_function shifted_ellipsoid_degrees_mask fixed_ellipsoid_mask"
           " basic_formula_ellipse_major_axis solve_conflict solve_simultaneous solve_first solve_function post_process_link re_reference_index needed_variable",
        M: "shifted_ellipsoid_degrees_mask2 numba_where sum_row_column",
        A: "AreaTracker.__init__ AreaTracker.merge AreaTracker.needed_variable AreaTracker.tracking mask_cmin",
        OLD: "CheltonTracker.cost_function CheltonTracker.mask_function CheltonTracker.across_ground CheltonTracker.solve_function CheltonTracker.post_process_link check_ratio",
        P: "vertice_overlap bbox_intersection polygon_overlap merge create_vertice create_vertice_from_2darray get_wrap_vertice",
        G: "distance_grid",
    },
    "C02": {
        C: "swap_dataset merge_correspondance store_correspondance append id_generator recense_dead_id_to_extend reset_dataset_cache track UINT32_MAX ID_DTYPE N_DTYPE VIRTUAL_DTYPE",
        O: "propagate iter_on obs_dimension", A: "AreaTracker.propagate", "observations.observation.VirtualEddiesObservations.": "elements",
    },
    "C03": {C: "__init__ _copy period to_netcdf from_netcdf load_state load_compatible load save track reset_dataset_cache swap_dataset"},
    "C04": {C: "prepare_merging merge", T: "add_distance"},
    "C05": {C: "longer_than shorter_than get_unused_data _copy", O: "index", "appli.eddies.": "track"},
    "C06": {
        O: "__init__ new_like add_fields remove_fields add_rotation_type extract_with_mask concatenate merge insert_observations append __add__ coherence"
           " obs_dimension elements dtype from_array __copy__ copy propagate __eq__ field_table fields index empty_dataset sign_legend tracks shape ELEMENTS",
        T: "__init__ elements concatenate close_tracks set_tracks extract_with_mask split_network ELEMENTS",
        N: "__init__ elements astype from_split_network extract_with_mask extract_light_with_mask",
        GO: "insert_virtual", A: "AreaTracker.merge", C: "merge",
    },
    "C07": {
        O: "add_fields add_rotation_type extract_with_mask concatenate merge insert_observations index __getitem__ __getattr__ obs from_array first_obs last_obs align_on iter_on match re_reference_index",
        T: "concatenate close_tracks extract_with_mask split_network extract_longer_eddies set_tracks",
        N: "sort extract_with_mask extract_light_with_mask from_split_network dissociate_network swap_track numbering_network numbering_segment close_network __close_segment",
        NM: "fix_next_previous_obs generate_mask_from_ids apply_replace build_unique_array", GO: "insert_virtual fix_next_previous_obs", NW: "build_dataset", C: "merge",
    },
    "C08": {
        O: "to_zarr netcdf_create_dimensions to_netcdf create_variable get_filters_zarr create_variable_zarr write_file global_attr set_global_attr_zarr set_global_attr_netcdf"
           " load_file load_from_zarr copy_data_to_zarr load_from_netcdf build_var_list compare_units from_zarr from_netcdf zarr_dimension",
        T: "set_global_attr_netcdf", M: "_check_versions", "": "identify_time TIME_MODELS",
    },
    "C09": {"": "VAR_DESCR VAR_DESCR_inv __setup__"},
    "C11": {
        N: "sort extract_with_mask extract_light_with_mask find_link connexions remove_dead_end swap_track obs_relative_order fix_next_previous_obs dissociate_network correct_close_events",
        NM: "fix_next_previous_obs get_next_index apply_replace build_unique_array new_numbering generate_mask_from_ids mask_follow_obs",
        GO: "insert_virtual fix_next_previous_obs",
        T: "split_network set_tracks follow_obs get_previous_obs get_next_obs fix_next_previous_obs", G: "reverse_index",
    },
    "C12": {
        T: "__init__ index_from_track nb_obs_by_track compute_index count_by_track track_slice iter_track nb_tracks lifetime age",
        TM: "compute_index count_by_track",
        N: "__init__ reset_index index_network index_segment_track segment_size ref_segment_track_index ref_index network_segment_size network_size segment_slice"
           " network_slice unique_segment_to_id segment_track_array numbering_network numbering_segment networks_mask networks nb_network nb_segment only_one_network",
        G: "build_index", NM: "build_unique_array",
    },
    "C13": {
        O: "intern match contains inside is_convex grid_count create_particles interp_grid mask_from_polygons grid_box_stat grid_stat circle_contour display filled scatter shape",
        T: "shape_polygon", GO: "particle_candidate_atlas", "appli.eddies.": "get_group", P: "close_center create_meshed_particles group_obs",
        NM: "Buffer.load_contour Buffer.__init__", NW: "__init__ from_eddiesobservations group_observations", N: "identify_in",
    },
    "C14": {
        GD: "eddy_identification get_uavg get_amplitude is_centered N",
        F: "Amplitude.__init__ Amplitude.within_amplitude_limits Amplitude.all_pixels_below_h0 Amplitude.all_pixels_above_h0 detect_local_minima_ Amplitude.EPSILON"
           " Contours.get_next Contours.check_closing Contours.find_wrapcut_path_and_join Contours.__init__ Contours.iter Contours.cvalues Contours.levels"
           " Contours.get_index_nearest_path_bbox_contain_pt Contours.DELTA_PREC Contours.DELTA_SUP index_from_nearest_path_with_pt_in_bbox_",
        D: "pixels_in bbox_slice pixels_index nb_pixel has_masked_value has_value _get_pixel_in_unregular",
        U: "get_pixels_in bbox_indice normalize_x_indice nearest_grd_indice", R: "get_pixels_in bbox_indice normalize_x_indice nearest_grd_indice",
        P: "shape_error winding_number_grid_in_poly winding_number_poly is_left get_pixel_in_regular", G: "bbox_indice_regular nearest_grd_indice",
    },
    "C15": {
        GD: "eddy_identification get_amplitude",
        F: "Amplitude.__init__ Amplitude.within_amplitude_limits Amplitude.all_pixels_below_h0 Amplitude.all_pixels_above_h0 detect_local_minima_ Contours.iter",
    },
    "C16": {
        GD: "eddy_identification get_uavg get_amplitude",
        D: "__setup__ fit_circle_path _circle_from_equal_area _fit_circle_path uniform_resample_stack raw_resample mean_coordinates lon lat mean_on_regular_contour value_on_regular_contour",
        U: "speed_coef_mean init_speed_coef", R: "speed_coef_mean init_speed_coef", G: "uniform_resample",
        P: "fit_circle fit_circle_ poly_area poly_area_vertice create_vertice shape_error", O: "add_rotation_type obs_dimension",
        F: "Amplitude.__init__",
    },
    "C17": {
        GD: "units eddy_identification get_uavg get_amplitude add_grid", O: "compare_units format_label", T: "format_label",
        R: "get_step_in_km add_uv add_uv_lagerloef", "appli.eddies.": "display_infos get_group", "appli.grid.": "identification",
    },
    "C18": {
        G: "interp2d_geo interp2d_nearest interp2d_bilinear nearest_grd_indice bbox_indice_regular window_index build_index",
        D: "compute_pixel_path get_uv_quad get_grid_indices interp_uv compute_stencil advect advect_t advect_rk4 advect_t_rk4 has_masked_value has_value _get_pixel_in_unregular",
        R: "is_circular compute_pixel_path normalize_x_indice nearest_grd_indice bbox_indice get_pixels_in compute_stencil convolve_filter_with_dynamic_kernel setup_coordinates xstep ystep",
        U: "bbox_indice nearest_grd_indice", GD: "is_circular c_to_bounds", P: "get_pixel_in_regular winding_number_grid_in_poly",
        M: "grid_count_ grid_count_pixel_in grid_box_stat grid_stat",
    },
    "C19": {
        GD: "get_mask grid", R: "clean_land convolve_filter_with_dynamic_kernel speed_coef_mean init_speed_coef compute_stencil interp with_array compute_finite_difference",
        U: "speed_coef_mean _low_filter", G: "interp2d_geo interp2d_nearest interp2d_bilinear",
        D: "has_masked_value has_value mean_on_regular_contour value_on_regular_contour compute_stencil get_uv_quad interp_uv advect advect_t advect_rk4 advect_t_rk4",
        M: "grid_stat grid_box_stat", O: "grid_stat grid_box_stat interp_grid",
    },
    "C20": {
        G: "interp2d_geo interp2d_nearest interp2d_bilinear",
        R: "interp uv_for_advection advect filament compute_finite_difference compute_stencil add_uv regrid", GM: "advect",
        D: "advect advect_t advect_rk4 advect_t_rk4 get_uv_quad get_grid_indices interp_uv compute_stencil",
        GC: "__init__ from_netcdf_cube from_netcdf_list are_loaded shift_files interp __iter__ time period __getitem__ filament reset_grids advect get_next_time_step get_previous_time_step path",
        O: "interp_grid",
    },
    "C21": {
        GD: "high_filter low_filter _gaussian_filter", U: "_low_filter",
        R: "estimate_kernel_shape finalize_kernel kernel_lanczos kernel_loess kernel_bessel _low_filter convolve_filter_with_dynamic_kernel lanczos_high_filter lanczos_low_filter"
           " bessel_band_filter bessel_high_filter bessel_low_filter spectrum_lonlat clean_land get_step_in_km check_order",
        "appli.grid.": "grid_filtering",
    },
    "C22": {
        G: "distance_grid distance coordinates_to_local local_to_coordinates cumsum_by_track build_circle", O: "distance circle_contour", T: "distance_to_next add_distance get_azimuth",
        GD: "EARTH_RADIUS GRAVITY", R: "get_step_in_km add_uv add_uv_lagerloef compute_finite_difference", P: "fit_circle fit_circle_ fit_ellipse convex is_left shape_error",
        D: "_circle_from_equal_area _fit_circle_path fit_circle_path", NM: "same_position",
    },
    "C23": {
        G: "wrap_longitude split_line flatten_line_matrix simplify", T: "normalize_longitude", N: "normalize_longitude",
        O: "extract_with_area match cost_function_common_area bins_stat fixed_ellipsoid_mask period iter_on grid_count grid_stat grid_box_stat", P: "get_wrap_vertice poly_indexs insidepoly box_index box_indexes bbox_intersection",
        U: "normalize_x_indice", R: "normalize_x_indice", GM: "get_targets", D: "_get_pixel_in_unregular",
    },
    "C25": {
        "appli.eddies.": "eddies_add_circle merge_eddies get_frequency_grid display_infos eddies_tracking browse_dataset_in track get_group run_compare display_compare quick_compare",
        "appli.grid.": "filtering_parser grid_filtering DictAction.__call__ eddy_id identification", "appli.network.": "build_network divide_network subset_network quick_compare run_compare display_compare",
        "appli.misc.": "zarr_header_parser zarrdump", "appli.gui.": "gui_parser guieddy anim",
        "scripts.EddyFinalTracking.": "usage __main__", "scripts.EddyMergeCorrespondances.": "usage __main__", "scripts.EddySubSetter.": "id_parser __main__",
        "scripts.EddyTranslate.": "id_parser is_nc get_variable_name get_variable __main__",
        "EddyParser.": "__init__ add_base_argument memory_arg contour_intern_arg parse_args", "": "start_logger",
    },
    "C26": {"appli.eddies.": "browse_dataset_in eddies_tracking merge_eddies track", GC: "from_netcdf_list", NW: "__init__ group_observations", "appli.network.": "build_network"},
    "C28": {
        O: "extract_with_area time_sub_sample time_datetime64 extract_with_mask mask_from_polygons index bins_stat hist merge_filters __merge_filters__ iter_on period nb_days contains inside parse_varname align_on",
        T: "extract_with_period extract_longer_eddies get_mask_from_id extract_ids extract_toward_direction extract_first_obs_in_box extract_in_direction extract_with_length extract_with_mask get_azimuth",
        TM: "compute_mask_from_id",
        N: "longer_than mask_longer_than extract_event networks_mask network_segment network networks extract_segment segment_mask get_mask_with_period extract_with_period extract_with_mask"
           " extract_light_with_mask remove_trash first_is_trash mask_obs_close_event only_one_network relatives segment_relative_order obs_relative_order find_segments_relative find_link connexions",
        NM: "generate_mask_from_ids mask_follow_obs", GO: "keep_tracks_by_date", M: "iter_mode_reduce numba_digitize", P: "group_obs poly_indexs insidepoly box_index box_indexes winding_number_poly is_left",
    },
    "C29": {
        T: "get_missing_indices", GO: "get_missing_indices filled_by_interpolation insert_virtual fix_next_previous_obs", GM: "get_missing_indices",
        N: "get_missing_indices fix_next_previous_obs", NM: "fix_next_previous_obs", C: "merge store_correspondance recense_dead_id_to_extend", O: "propagate", A: "AreaTracker.propagate",
        TM: "track_loess_filter track_median_filter", "scripts.EddyFinalTracking.": "__main__",
    },
    "C30": {
        NW: "__init__ from_eddiesobservations get_group_array group_translator group_observations build_dataset NOGROUP",
        N: "fully_connected first_is_trash remove_trash identify_in numbering_network numbering_segment NOGROUP",
        NM: "new_numbering same_position apply_replace build_unique_array Buffer.__init__ Buffer.load_contour", T: "NOGROUP split_network", "appli.network.": "build_network divide_network",
    },
    "C31": {
        N: "birth_event death_event generation_event dissipation_event merging_event splitting_event mask_obs_close_event correct_close_events __tag_segment tag_segment extract_event"
           " segment_relative_order relatives relative close_network __close_segment connexions find_link infos mean_by_segment map_segment map_network event_timeline event_map dissociate_network"
           " segment_track_array remove_dead_end find_segments_relative",
        NM: "ptp",
    },
    "C32": {
        GM: "particle_candidate_step particle_candidate get_matrix get_targets advect", GO: "particle_candidate_atlas fill_coherence merge_particle_result",
        N: "analysis_coherence segment_coherence_backward segment_coherence_forward", NM: "get_percentile_on_following_obs get_percentile_around_event",
        O: "create_particles", P: "create_meshed_particles group_obs", R: "filament", GC: "filament path",
    },
    "C33": {
        P: "is_left poly_contain_poly convexs convex get_convex_hull winding_number_poly winding_number_grid_in_poly insidepoly tri_area2 visvalingam reduce_size close_center poly_indexs box_index box_indexes poly_area poly_area_vertice",
        O: "is_convex contains inside", T: "shape_polygon", G: "simplify split_line flatten_line_matrix uniform_resample",
        F: "Contours.label_contour_unused_which_contain_eddies Contours.find_wrapcut_path_and_join",
    },
    "C34": {
        TM: "track_loess_filter track_median_filter compute_index count_by_track", T: "loess_filter median_filter position_filter distance_to_next add_distance get_azimuth lifetime age",
        N: "loess_filter median_filter position_filter", G: "cumsum_by_track build_index", NM: "get_next_index mask_follow_obs",
    },
    "C35": {
        GD: "__init__ populate clean is_centered load_general_features write load get_mask c_to_bounds setup_coordinates variables copy add_grid grid grid_tiles bounds units",
        U: "load bounds compute_pixel_path init_pos_interpolator", R: "__init__ setup_coordinates with_array compute_pixel_path is_circular check_order xstep ystep regrid",
        D: "compute_pixel_path",
    },
    "C36": {
        M: "grid_count_ grid_count_pixel_in grid_box_stat grid_stat numba_digitize iter_mode_reduce", O: "hist bins_stat grid_count grid_box_stat grid_stat box_display get_infos",
        G: "hist_numba count_consecutive", N: "mean_by_segment map_segment map_network scatter_timeline",
    },
    "C37": {
        "gui.GUI.": "__init__ set_initial_values now now.setter period bbox bbox.setter indexs med setup hide_path draw update event keyboard press get_infos move release scroll adjust show COLORS KEYTIME",
        "gui.GUIAxes.": "end_pan", "gui.": "no", "appli.gui.": "anim guieddy gui_parser",
        "appli.gui.Anim.": "__init__ setup reset_bliting show next prev func_animation update draw_contour keyboard",
        "misc.VideoAnimation.": "_repr_html_ save", M: "Table.__init__ Table._repr_html_",
        O: "_repr_html_ __repr__ __dir__ display_color scatter display filled format_label get_infos box_display", T: "__repr__ plot display_shape format_label",
        N: "__repr__ scatter display_timeline plot infos", R: "display", GC: "__repr__", F: "Contours.display",
        G: "flatten_line_matrix split_line wrap_longitude",
    },
    "C38": {
        O: "__init__ __getattr__ __getitem__", T: "__init__", N: "__init__", NW: "__init__", GD: "__init__", R: "__init__", GC: "__init__",
        C: "__init__", F: "Amplitude.__init__ Contours.__init__", "gui.GUI.": "__init__ set_initial_values setup", "appli.gui.Anim.": "__init__ setup",
    },
    "C39": {
        "dataset.grid.GridDataset.": "grid populate clean load",
        "dataset.grid.RegularGridDataset.": "is_circular uv_for_advection",
        "dataset.grid.": "fit_circle_path pixels_in bbox_slice pixels_index nb_pixel",
        "observations.network.Buffer.": "load_contour __init__",
        "observations.network.NetworkObservations.": "extract_light_with_mask index_network index_segment_track segment_track_array reset_index",
        "observations.observation.EddiesObservations.": "add_fields insert_observations period",
        "observations.tracking.TrackEddiesObservations.": "compute_index nb_tracks reset_index index_from_track nb_obs_by_track",
        "tracking.Correspondances.": "store_correspondance reset_dataset_cache",
    },
    "C40": {
        "eddy_feature.": "detect_local_minima_ index_from_nearest_path_with_pt_in_bbox_",
        "generic.": "count_consecutive reverse_index build_index hist_numba distance_grid distance cumsum_by_track interp2d_geo interp2d_nearest interp2d_bilinear uniform_resample flatten_line_matrix simplify split_line wrap_longitude coordinates_to_local local_to_coordinates nearest_grd_indice bbox_indice_regular window_index",
        "poly.": "is_left poly_contain_poly poly_area_vertice poly_area convexs convex get_convex_hull winding_number_poly winding_number_grid_in_poly close_center create_meshed_particles bbox_intersection create_vertice create_vertice_from_2darray get_wrap_vertice fit_circle fit_ellipse fit_circle_ shape_error get_pixel_in_regular tri_area2 visvalingam reduce_size group_obs box_index box_indexes poly_indexs insidepoly",
        "tracking.": "index",
        "dataset.grid.": "uniform_resample_stack value_on_regular_contour mean_on_regular_contour _circle_from_equal_area _fit_circle_path _get_pixel_in_unregular advect_rk4 advect compute_pixel_path has_masked_value has_value advect_t get_uv_quad get_grid_indices interp_uv advect_t_rk4 compute_stencil",
        "featured_tracking.area_tracker.": "mask_cmin",
        "featured_tracking.old_tracker_reference.": "check_ratio",
        "observations.groups.": "get_missing_indices get_targets get_matrix",
        "observations.network.": "fix_next_previous_obs get_percentile_on_following_obs get_percentile_around_event get_next_index apply_replace build_unique_array new_numbering ptp generate_mask_from_ids same_position mask_follow_obs",
        "observations.observation.": "shifted_ellipsoid_degrees_mask2 grid_count_ grid_count_pixel_in grid_box_stat grid_stat numba_where sum_row_column numba_digitize iter_mode_reduce",
        "observations.tracking.": "compute_index count_by_track compute_mask_from_id track_loess_filter track_median_filter",
    },
}


# Functions which carry a part of the property, away from its centre
MORE = {
    "C16": {F: "Contours.label_contour_unused_which_contain_eddies Contours.__init__ index_from_nearest_path_with_pt_in_bbox_ Contours.get_index_nearest_path_bbox_contain_pt", },
    "C10": {F: "Contours.label_contour_unused_which_contain_eddies Contours.__init__", GC: "path", R: "add_uv uv_for_advection", GD: "eddy_identification", },
    "C01": {C: "track swap_dataset store_correspondance", P: "get_wrap_vertice"},
    "C02": {C: "__init__ load_state load prepare_merging", "scripts.EddyMergeCorrespondances.": "__main__", A: "AreaTracker.merge", M: "VirtualEddiesObservations.elements"},
    "C03": {C: "append merge_correspondance id_generator store_correspondance", "appli.eddies.": "browse_dataset_in track eddies_tracking"},
    "C04": {C: "shorter_than longer_than", "scripts.EddyFinalTracking.": "__main__", "appli.eddies.": "track"},
    "C05": {C: "prepare_merging merge", "scripts.EddyFinalTracking.": "__main__"},
    "C06": {
        O: "load_from_netcdf load_from_zarr from_netcdf from_zarr match iter_on first_obs last_obs intern circle_contour extract_with_area", T: "extract_longer_eddies",
        N: "extract_event extract_light_with_mask remove_trash network_segment dissociate_network", NW: "build_dataset", GD: "eddy_identification", C: "get_unused_data",
        "appli.eddies.": "merge_eddies eddies_add_circle", "scripts.EddyFinalTracking.": "__main__",
    },
    "C07": {
        O: "__len__ __iter__ propagate load_from_netcdf load_from_zarr copy_data_to_zarr coherence circle_contour extract_with_area mask_from_polygons", GO: "keep_tracks_by_date filled_by_interpolation fill_coherence merge_particle_result",
        NW: "group_observations", C: "get_unused_data prepare_merging", A: "AreaTracker.propagate", GD: "eddy_identification", T: "iter_track track_slice loess_filter median_filter",
        N: "remove_dead_end remove_trash correct_close_events extract_event", "scripts.EddyFinalTracking.": "__main__",
    },
    "C08": {
        O: "__init__ elements dtype obs_dimension index intern", T: "elements", N: "elements", M: "VirtualEddiesObservations.elements",
        "scripts.EddyTranslate.": "is_nc get_variable_name get_variable __main__", "appli.misc.": "zarrdump", "": "VAR_DESCR VAR_DESCR_inv",
    },
    "C09": {O: "create_variable create_variable_zarr dtype elements build_var_list obs_dimension ELEMENTS", T: "elements ELEMENTS", N: "elements"},
    "C11": {"appli.network.": "run_compare", 
        N: "close_network __close_segment remove_trash relatives find_segments_relative numbering_network numbering_segment astype from_split_network segment_relative_order",
        NW: "build_dataset", GM: "get_missing_indices",
    },
    "C12": {
        N: "sort dissociate_network close_network __close_segment correct_close_events remove_dead_end swap_track remove_trash extract_with_mask extract_light_with_mask",
        GO: "insert_virtual", O: "__add__ append period index insert_observations reset reset_index", T: "reset_index position_filter loess_filter median_filter concatenate extract_longer_eddies extract_with_mask normalize_longitude", GD: "grid add_grid populate clean",
        R: "init_speed_coef setup_coordinates", U: "init_pos_interpolator", NM: "Buffer.__init__ Buffer.load_contour", C: "reset_dataset_cache swap_dataset",
    },
    "C13": {
        T: "split_network set_tracks get_previous_obs get_next_obs close_tracks", O: "cost_function_common_area hist needed_variable", A: "AreaTracker.needed_variable AreaTracker.tracking",
        N: "segment_coherence_backward segment_coherence_forward analysis_coherence", NW: "group_observations", NM: "get_percentile_on_following_obs get_percentile_around_event",
        "appli.network.": "build_network divide_network quick_compare run_compare",
    },
    "C15": {GD: "get_uavg", F: "Contours.label_contour_unused_which_contain_eddies Contours.__init__ Contours.levels Contours.cvalues Contours.get_next", "appli.grid.": "eddy_id identification"},
    "C17": {
        T: "distance_to_next add_distance", O: "create_variable create_variable_zarr load_from_netcdf load_from_zarr copy_data_to_zarr distance circle_contour fixed_ellipsoid_mask", F: "Amplitude.__init__ Amplitude.within_amplitude_limits",
        G: "distance distance_grid build_circle", R: "spectrum_lonlat compute_finite_difference", U: "speed_coef_mean init_speed_coef", "": "VAR_DESCR", "appli.eddies.": "get_frequency_grid",
    },
    "C18": {F: "Amplitude.__init__", GD: "eddy_identification", 
        R: "interp uv_for_advection advect filament with_array speed_coef_mean", D: "value_on_regular_contour mean_on_regular_contour", G: "hist_numba simplify flatten_line_matrix split_line", O: "grid_count grid_stat grid_box_stat interp_grid", M: "numba_digitize",
        U: "normalize_x_indice get_pixels_in", GC: "advect filament path interp", P: "reduce_size",
    },
    "C19": {GM: "particle_candidate_step particle_candidate", GO: "particle_candidate_atlas", R: "_low_filter spectrum_lonlat regrid lanczos_high_filter lanczos_low_filter", GD: "eddy_identification get_uavg get_amplitude load populate _gaussian_filter", GC: "interp advect", F: "Amplitude.__init__"},
    "C20": {GM: "particle_candidate particle_candidate_step", GO: "particle_candidate_atlas", N: "segment_coherence_backward segment_coherence_forward analysis_coherence", R: "add_uv_lagerloef spectrum_lonlat speed_coef_mean"},
    "C21": {R: "add_uv", GD: "copy add_grid", "appli.grid.": "identification"},
    "C22": {
        O: "create_particles fixed_ellipsoid_mask basic_formula_ellipse_major_axis shifted_ellipsoid_degrees_mask mask_function match propagate index", M: "shifted_ellipsoid_degrees_mask2",
        OLD: "CheltonTracker.mask_function CheltonTracker.across_ground", D: "uniform_resample_stack raw_resample mean_coordinates lon lat", GD: "eddy_identification", P: "create_meshed_particles close_center poly_area",
        N: "identify_in event_map", T: "extract_toward_direction extract_in_direction", R: "spectrum_lonlat finalize_kernel filament",
    },
    "C23": {
        T: "extract_in_direction extract_toward_direction extract_first_obs_in_box get_azimuth distance_to_next plot display_shape", O: "propagate mask_function shifted_ellipsoid_degrees_mask circle_contour display filled create_particles mask_from_polygons interp_grid",
        M: "shifted_ellipsoid_degrees_mask2 grid_count_ grid_count_pixel_in grid_box_stat grid_stat", NM: "same_position", N: "identify_in plot", P: "vertice_overlap polygon_overlap merge create_vertice_from_2darray",
        G: "bbox_indice_regular nearest_grd_indice distance_grid coordinates_to_local local_to_coordinates interp2d_geo", D: "compute_pixel_path get_grid_indices bbox_slice", GD: "eddy_identification is_circular",
        F: "index_from_nearest_path_with_pt_in_bbox_ Contours.find_wrapcut_path_and_join", R: "is_circular bbox_indice", A: "AreaTracker.propagate AreaTracker.tracking", "scripts.EddyFinalTracking.": "__main__",
    },
    "C26": {"appli.eddies.": "run_compare display_infos get_frequency_grid", "appli.network.": "subset_network divide_network run_compare", C: "__init__ load period", GC: "shift_files from_netcdf_cube"},
    "C28": {NM: "generate_mask_from_ids", 
        T: "close_tracks shape_polygon iter_track track_slice", O: "first_obs last_obs match re_reference_index coherence", "scripts.EddySubSetter.": "__main__ id_parser", "appli.network.": "subset_network", "appli.eddies.": "get_group",
        N: "close_network networks network network_slice networks_mask birth_event death_event generation_event dissipation_event merging_event splitting_event remove_dead_end fully_connected", C: "longer_than shorter_than get_unused_data", R: "regrid",
    },
    "C29": {"appli.eddies.": "track", 
        N: "from_split_network loess_filter median_filter position_filter", NW: "build_dataset", T: "position_filter loess_filter median_filter", C: "prepare_merging get_unused_data", A: "AreaTracker.merge",
        O: "circle_contour merge insert_observations",
    },
    "C30": {O: "match align_on", P: "vertice_overlap bbox_intersection", T: "set_tracks follow_obs get_next_obs get_previous_obs", N: "dissociate_network tag_segment __tag_segment connexions network network_segment networks_mask"},
    "C31": {"appli.network.": "run_compare", 
        T: "split_network set_tracks follow_obs get_previous_obs get_next_obs", N: "numbering_segment numbering_network swap_track sort segment_mask extract_segment obs_relative_order fix_next_previous_obs longer_than mask_longer_than display_timeline network",
        NM: "get_next_index mask_follow_obs generate_mask_from_ids apply_replace", NW: "build_dataset",
    },
    "C32": {D: "advect advect_t advect_rk4 advect_t_rk4 get_uv_quad interp_uv", R: "advect uv_for_advection", GC: "advect __getitem__ get_next_time_step get_previous_time_step shift_files", P: "winding_number_poly poly_indexs insidepoly is_left box_index box_indexes"},
    "C33": {
        P: "poly_contain_poly vertice_overlap polygon_overlap merge create_vertice create_vertice_from_2darray bbox_intersection get_pixel_in_regular create_meshed_particles get_wrap_vertice group_obs fit_circle fit_ellipse shape_error",
        D: "_get_pixel_in_unregular uniform_resample_stack raw_resample", O: "mask_from_polygons create_particles", F: "Contours.check_closing Contours.get_index_nearest_path_bbox_contain_pt index_from_nearest_path_with_pt_in_bbox_", G: "wrap_longitude",
    },
    "C34": {
        T: "concatenate normalize_longitude extract_in_direction extract_toward_direction extract_with_length extract_longer_eddies extract_with_mask track_slice iter_track nb_tracks shape_polygon get_missing_indices index_from_track nb_obs_by_track"
           " count_by_track split_network plot get_mask_from_id extract_first_obs_in_box",
        TM: "compute_mask_from_id", C: "merge prepare_merging", O: "first_obs last_obs", GO: "filled_by_interpolation", GM: "get_missing_indices", G: "split_line flatten_line_matrix", N: "mean_by_segment segment_track_array get_missing_indices plot",
        "scripts.EddyFinalTracking.": "__main__",
    },
    "C35": {U: "nearest_grd_indice bbox_indice get_pixels_in normalize_x_indice", GC: "from_netcdf_cube from_netcdf_list __getitem__", R: "compute_stencil interp bbox_indice", GD: "is_circular add_grid", "appli.grid.": "grid_filtering identification"},
    "C36": {G: "bbox_indice_regular", "appli.eddies.": "get_frequency_grid", N: "event_map event_timeline", R: "normalize_x_indice bbox_indice nearest_grd_indice", P: "get_pixel_in_regular", O: "interp_grid merge_filters __merge_filters__ mask_from_polygons", "appli.gui.": "anim"},
}


def listed(pid):
    return list(dict.fromkeys(p + n for t in (TABLE, MORE) for p, ns in t.get(pid, {}).items() for n in ns.split()))


def names(pid):
    """With the functions they call, and those that are only reached through them"""
    from .vclosure import CLOSURE

    return listed(pid) + CLOSURE.get(pid, [])
