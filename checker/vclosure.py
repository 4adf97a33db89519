"""Written by tools/closure.py: functions called by those of a property, and functions only reached through them"""
CLOSURE = {
    "C01": """
        dataset.grid.GridDataset.grid
        dataset.grid.RegularGridDataset.compute_pixel_path
        dataset.grid.UnRegularGridDataset.compute_pixel_path
        dataset.grid.compute_pixel_path
        featured_tracking.area_tracker.AreaTracker.propagate
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.propagate
        poly.close_center
        tracking.Correspondances.id_generator
        tracking.Correspondances.load_state
        tracking.Correspondances.recense_dead_id_to_extend
        tracking.Correspondances.reset_dataset_cache
    """.split(),
    "C02": """
        featured_tracking.area_tracker.AreaTracker.needed_variable
        featured_tracking.area_tracker.AreaTracker.tracking
        featured_tracking.area_tracker.mask_cmin
        generic.build_index
        generic.window_index
        observations.observation.EddiesObservations.cost_function
        observations.observation.EddiesObservations.from_netcdf
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.mask_function
        observations.observation.EddiesObservations.needed_variable
        observations.observation.EddiesObservations.parse_varname
        observations.observation.EddiesObservations.post_process_link
        observations.observation.EddiesObservations.solve_function
        observations.observation.EddiesObservations.solve_simultaneous
        observations.observation.EddiesObservations.tracking
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.observation.numba_where
        observations.observation.sum_row_column
        tracking.Correspondances.from_netcdf
        tracking.Correspondances.load_compatible
    """.split(),
    "C03": """
        EddyParser.memory_arg
        featured_tracking.area_tracker.AreaTracker.needed_variable
        featured_tracking.area_tracker.AreaTracker.propagate
        featured_tracking.area_tracker.AreaTracker.tracking
        featured_tracking.area_tracker.mask_cmin
        identify_time
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.observation.EddiesObservations.cost_function
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.from_netcdf
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.mask_function
        observations.observation.EddiesObservations.match
        observations.observation.EddiesObservations.needed_variable
        observations.observation.EddiesObservations.post_process_link
        observations.observation.EddiesObservations.propagate
        observations.observation.EddiesObservations.sign_legend
        observations.observation.EddiesObservations.solve_function
        observations.observation.EddiesObservations.solve_simultaneous
        observations.observation.EddiesObservations.tracking
        observations.observation.EddiesObservations.write_file
        observations.observation.numba_where
        observations.observation.sum_row_column
        poly.close_center
        tracking.Correspondances.get_unused_data
        tracking.Correspondances.prepare_merging
        tracking.Correspondances.recense_dead_id_to_extend
        tracking.Correspondances.shorter_than
    """.split(),
    "C04": """
        appli.eddies.browse_dataset_in
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.network.NetworkObservations.normalize_longitude
        observations.observation.EddiesObservations.add_fields
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.sign_legend
        observations.observation.EddiesObservations.write_file
        observations.tracking.TrackEddiesObservations.distance_to_next
        observations.tracking.TrackEddiesObservations.normalize_longitude
        tracking.Correspondances._copy
        tracking.Correspondances.get_unused_data
        tracking.Correspondances.reset_dataset_cache
        tracking.Correspondances.swap_dataset
    """.split(),
    "C05": """
        appli.eddies.browse_dataset_in
        generic.reverse_index
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.network.NetworkObservations.normalize_longitude
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.sign_legend
        observations.observation.EddiesObservations.write_file
        observations.tracking.TrackEddiesObservations.normalize_longitude
        tracking.Correspondances.reset_dataset_cache
        tracking.Correspondances.swap_dataset
    """.split(),
    "C06": """
        EddyParser.memory_arg
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_uavg
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._fit_circle_path
        dataset.grid._get_pixel_in_unregular
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.build_index
        generic.coordinates_to_local
        generic.local_to_coordinates
        generic.reverse_index
        generic.uniform_resample
        generic.window_index
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.groups.GroupEddiesObservations.fix_next_previous_obs
        observations.network.NetworkObservations.__tag_segment
        observations.network.NetworkObservations.first_is_trash
        observations.network.NetworkObservations.fix_next_previous_obs
        observations.network.NetworkObservations.segment_slice
        observations.network.NetworkObservations.tag_segment
        observations.network.fix_next_previous_obs
        observations.network.get_next_index
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.build_var_list
        observations.observation.EddiesObservations.compare_units
        observations.observation.EddiesObservations.copy_data_to_zarr
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.parse_varname
        observations.observation.EddiesObservations.re_reference_index
        observations.observation.EddiesObservations.write_file
        observations.observation._check_versions
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.extract_ids
        observations.tracking.TrackEddiesObservations.fix_next_previous_obs
        observations.tracking.TrackEddiesObservations.get_mask_from_id
        observations.tracking.TrackEddiesObservations.get_previous_obs
        observations.tracking.compute_mask_from_id
        poly.bbox_intersection
        poly.close_center
        poly.create_vertice
        poly.fit_circle
        poly.get_wrap_vertice
        poly.poly_area
        poly.poly_contain_poly
        poly.tri_area2
        poly.vertice_overlap
        poly.visvalingam
        tracking.Correspondances._copy
        tracking.Correspondances.prepare_merging
        tracking.Correspondances.reset_dataset_cache
        tracking.Correspondances.shorter_than
        tracking.Correspondances.swap_dataset
    """.split(),
    "C07": """
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_uavg
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._fit_circle_path
        dataset.grid._get_pixel_in_unregular
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.build_index
        generic.coordinates_to_local
        generic.local_to_coordinates
        generic.reverse_index
        generic.uniform_resample
        generic.window_index
        observations.groups.get_targets
        observations.groups.particle_candidate_step
        observations.network.Buffer.load_contour
        observations.network.Network.get_group_array
        observations.network.Network.group_translator
        observations.network.NetworkObservations.__tag_segment
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.connexions
        observations.network.NetworkObservations.first_is_trash
        observations.network.NetworkObservations.fix_next_previous_obs
        observations.network.NetworkObservations.network_slice
        observations.network.NetworkObservations.segment_mask
        observations.network.NetworkObservations.splitting_event
        observations.network.NetworkObservations.tag_segment
        observations.network.get_next_index
        observations.network.new_numbering
        observations.observation.EddiesObservations.build_var_list
        observations.observation.EddiesObservations.compare_units
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.nb_days
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.obs_dimension
        observations.observation.EddiesObservations.parse_varname
        observations.observation.EddiesObservations.write_file
        observations.observation._check_versions
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.extract_ids
        observations.tracking.TrackEddiesObservations.fix_next_previous_obs
        observations.tracking.TrackEddiesObservations.get_mask_from_id
        observations.tracking.TrackEddiesObservations.get_previous_obs
        observations.tracking.compute_mask_from_id
        observations.tracking.track_loess_filter
        observations.tracking.track_median_filter
        poly.bbox_intersection
        poly.close_center
        poly.create_vertice
        poly.fit_circle
        poly.get_wrap_vertice
        poly.insidepoly
        poly.poly_area
        poly.poly_contain_poly
        poly.tri_area2
        poly.vertice_overlap
        poly.visvalingam
        tracking.Correspondances._copy
        tracking.Correspondances.reset_dataset_cache
        tracking.Correspondances.shorter_than
        tracking.Correspondances.swap_dataset
    """.split(),
    "C08": """
        appli.misc.zarr_header_parser
        generic.reverse_index
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.new_like
    """.split(),
    "C11": """
        generic.build_index
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.network.NetworkObservations.__tag_segment
        observations.network.NetworkObservations.first_is_trash
        observations.network.NetworkObservations.identify_in
        observations.network.NetworkObservations.merging_event
        observations.network.NetworkObservations.network
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.network_slice
        observations.network.NetworkObservations.networks
        observations.network.NetworkObservations.networks_mask
        observations.network.NetworkObservations.only_one_network
        observations.network.NetworkObservations.ref_segment_track_index
        observations.network.NetworkObservations.segment_mask
        observations.network.NetworkObservations.segment_size
        observations.network.NetworkObservations.splitting_event
        observations.network.NetworkObservations.tag_segment
        observations.network.NetworkObservations.unique_segment_to_id
        observations.network.same_position
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.match
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.re_reference_index
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        poly.bbox_intersection
        poly.close_center
        poly.get_wrap_vertice
        poly.vertice_overlap
    """.split(),
    "C12": """
        dataset.grid.GridDataset.load_general_features
        generic.reverse_index
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.groups.GroupEddiesObservations.fix_next_previous_obs
        observations.network.NetworkObservations.__tag_segment
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.connexions
        observations.network.NetworkObservations.first_is_trash
        observations.network.NetworkObservations.fix_next_previous_obs
        observations.network.NetworkObservations.segment_mask
        observations.network.NetworkObservations.splitting_event
        observations.network.NetworkObservations.tag_segment
        observations.network.fix_next_previous_obs
        observations.network.generate_mask_from_ids
        observations.network.new_numbering
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.coherence
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.match
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.re_reference_index
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.fix_next_previous_obs
        observations.tracking.TrackEddiesObservations.get_mask_from_id
        observations.tracking.compute_mask_from_id
        observations.tracking.track_loess_filter
        observations.tracking.track_median_filter
        poly.close_center
        poly.create_vertice
    """.split(),
    "C13": """
        EddyParser.contour_intern_arg
        EddyParser.memory_arg
        dataset.grid.GridCollection.from_netcdf_list
        dataset.grid.GridCollection.shift_files
        dataset.grid.GridCollection.time
        dataset.grid.GridDataset.grid
        dataset.grid.RegularGridDataset.with_array
        featured_tracking.area_tracker.mask_cmin
        generic.build_index
        generic.flatten_line_matrix
        generic.hist_numba
        generic.local_to_coordinates
        generic.reverse_index
        generic.window_index
        generic.wrap_longitude
        observations.groups.GroupEddiesObservations.fill_coherence
        observations.groups.GroupEddiesObservations.merge_particle_result
        observations.groups.get_matrix
        observations.groups.get_targets
        observations.groups.particle_candidate
        observations.groups.particle_candidate_step
        observations.network.Network.build_dataset
        observations.network.Network.get_group_array
        observations.network.Network.group_translator
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.correct_close_events
        observations.network.NetworkObservations.dissociate_network
        observations.network.NetworkObservations.from_split_network
        observations.network.NetworkObservations.merging_event
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.networks
        observations.network.NetworkObservations.networks_mask
        observations.network.NetworkObservations.numbering_segment
        observations.network.NetworkObservations.ref_segment_track_index
        observations.network.NetworkObservations.remove_dead_end
        observations.network.NetworkObservations.segment_size
        observations.network.NetworkObservations.splitting_event
        observations.network.NetworkObservations.unique_segment_to_id
        observations.network.apply_replace
        observations.network.build_unique_array
        observations.network.get_next_index
        observations.network.same_position
        observations.observation.EddiesObservations.__merge_filters__
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.merge_filters
        observations.observation.EddiesObservations.parse_varname
        observations.observation.EddiesObservations.re_reference_index
        observations.observation.EddiesObservations.write_file
        observations.observation.grid_box_stat
        observations.observation.grid_count_
        observations.observation.grid_count_pixel_in
        observations.observation.grid_stat
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.extract_ids
        observations.tracking.TrackEddiesObservations.iter_track
        poly.bbox_intersection
        poly.box_index
        poly.box_indexes
        poly.convex
        poly.convexs
        poly.create_vertice
        poly.get_wrap_vertice
        poly.insidepoly
        poly.poly_indexs
        poly.reduce_size
        poly.vertice_overlap
        poly.winding_number_poly
    """.split(),
    "C14": """
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.contour
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._fit_circle_path
        dataset.grid.mean_on_regular_contour
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        generic.coordinates_to_local
        generic.uniform_resample
        observations.network.NetworkObservations.astype
        poly.create_vertice
        poly.fit_circle
        poly.poly_area
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
    """.split(),
    "C15": """
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.add_uv
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.bessel_high_filter
        dataset.grid.RegularGridDataset.bessel_low_filter
        dataset.grid.RegularGridDataset.compute_stencil
        dataset.grid.RegularGridDataset.contour
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._fit_circle_path
        dataset.grid._get_pixel_in_unregular
        dataset.grid.compute_stencil
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Contours.check_closing
        eddy_feature.Contours.find_wrapcut_path_and_join
        eddy_feature.Contours.get_index_nearest_path_bbox_contain_pt
        eddy_feature.index_from_nearest_path_with_pt_in_bbox_
        generic.coordinates_to_local
        generic.uniform_resample
        identify_time
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.write_file
        poly.create_vertice
        poly.fit_circle
        poly.poly_area
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
        poly.winding_number_poly
    """.split(),
    "C16": """
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.contour
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid._get_pixel_in_unregular
        dataset.grid.bbox_slice
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.nb_pixel
        dataset.grid.pixels_in
        dataset.grid.pixels_index
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.check_closing
        eddy_feature.Contours.cvalues
        eddy_feature.Contours.find_wrapcut_path_and_join
        eddy_feature.Contours.get_next
        eddy_feature.Contours.iter
        eddy_feature.Contours.levels
        eddy_feature.detect_local_minima_
        generic.coordinates_to_local
        generic.interp2d_bilinear
        generic.interp2d_geo
        generic.interp2d_nearest
        generic.local_to_coordinates
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.add_fields
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
        poly.winding_number_poly
    """.split(),
    "C17": """
        EddyParser.contour_intern_arg
        dataset.grid.GridDataset.grid
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.bessel_high_filter
        dataset.grid.RegularGridDataset.bessel_low_filter
        dataset.grid.RegularGridDataset.compute_stencil
        dataset.grid.RegularGridDataset.convolve_filter_with_dynamic_kernel
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid._fit_circle_path
        dataset.grid._get_pixel_in_unregular
        dataset.grid.compute_stencil
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.coordinates_to_local
        generic.local_to_coordinates
        generic.reverse_index
        generic.uniform_resample
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.add_fields
        observations.observation.EddiesObservations.build_var_list
        observations.observation.EddiesObservations.extract_with_area
        observations.observation.EddiesObservations.grid_count
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.obs_dimension
        observations.observation._check_versions
        observations.observation.grid_count_
        observations.observation.grid_count_pixel_in
        poly.create_vertice
        poly.fit_circle
        poly.poly_area
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
    """.split(),
    "C18": """
        dataset.grid.GridCollection.get_next_time_step
        dataset.grid.GridCollection.get_previous_time_step
        dataset.grid.GridCollection.reset_grids
        dataset.grid.GridDataset.clean
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_mask
        dataset.grid.GridDataset.get_uavg
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.add_uv
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._fit_circle_path
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.coordinates_to_local
        generic.uniform_resample
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.__merge_filters__
        observations.observation.EddiesObservations.merge_filters
        poly.create_vertice
        poly.fit_circle
        poly.poly_area
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
        poly.winding_number_poly
    """.split(),
    "C19": """
        dataset.grid.GridCollection.get_next_time_step
        dataset.grid.GridCollection.get_previous_time_step
        dataset.grid.GridCollection.reset_grids
        dataset.grid.GridDataset.add_grid
        dataset.grid.GridDataset.clean
        dataset.grid.GridDataset.is_centered
        dataset.grid.GridDataset.load_general_features
        dataset.grid.GridDataset.setup_coordinates
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.bessel_low_filter
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.kernel_lanczos
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.setup_coordinates
        dataset.grid.RegularGridDataset.uv_for_advection
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid._fit_circle_path
        dataset.grid._get_pixel_in_unregular
        dataset.grid.get_grid_indices
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.bbox_indice_regular
        generic.coordinates_to_local
        generic.uniform_resample
        generic.window_index
        observations.groups.GroupEddiesObservations.fill_coherence
        observations.groups.GroupEddiesObservations.merge_particle_result
        observations.groups.get_matrix
        observations.groups.get_targets
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.__merge_filters__
        observations.observation.EddiesObservations.contains
        observations.observation.EddiesObservations.create_particles
        observations.observation.EddiesObservations.merge_filters
        poly.box_index
        poly.box_indexes
        poly.create_meshed_particles
        poly.create_vertice
        poly.fit_circle
        poly.get_pixel_in_regular
        poly.group_obs
        poly.poly_area
        poly.poly_contain_poly
        poly.poly_indexs
        poly.tri_area2
        poly.visvalingam
        poly.winding_number_grid_in_poly
    """.split(),
    "C20": """
        dataset.grid.GridDataset.add_grid
        dataset.grid.GridDataset.clean
        dataset.grid.GridDataset.get_mask
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.load_general_features
        dataset.grid.GridDataset.populate
        dataset.grid.RegularGridDataset.convolve_filter_with_dynamic_kernel
        dataset.grid.mean_on_regular_contour
        generic.window_index
        observations.groups.GroupEddiesObservations.fill_coherence
        observations.groups.GroupEddiesObservations.merge_particle_result
        observations.groups.get_matrix
        observations.groups.get_targets
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.correct_close_events
        observations.network.NetworkObservations.dissociate_network
        observations.network.NetworkObservations.numbering_segment
        observations.network.NetworkObservations.remove_dead_end
        observations.observation.EddiesObservations.contains
        observations.observation.EddiesObservations.create_particles
        observations.observation.EddiesObservations.grid_stat
        observations.observation.grid_stat
        poly.box_index
        poly.box_indexes
        poly.create_meshed_particles
        poly.group_obs
        poly.poly_indexs
    """.split(),
    "C21": """
        appli.grid.filtering_parser
        dataset.grid.GridDataset.eddy_identification
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_mask
        dataset.grid.GridDataset.get_uavg
        dataset.grid.GridDataset.grid
        dataset.grid.RegularGridDataset.compute_stencil
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.RegularGridDataset.with_array
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid.compute_stencil
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        observations.network.NetworkObservations.astype
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
    """.split(),
    "C22": """
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_uavg
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.compute_pixel_path
        dataset.grid.RegularGridDataset.compute_stencil
        dataset.grid.RegularGridDataset.convolve_filter_with_dynamic_kernel
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.RegularGridDataset.uv_for_advection
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.compute_pixel_path
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.normalize_x_indice
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._get_pixel_in_unregular
        dataset.grid.compute_pixel_path
        dataset.grid.compute_stencil
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.pixels_in
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.reverse_index
        generic.uniform_resample
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.networks_mask
        observations.network.NetworkObservations.segment_size
        observations.network.build_unique_array
        observations.observation.EddiesObservations.add_fields
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.new_like
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        poly.bbox_intersection
        poly.create_vertice
        poly.get_wrap_vertice
        poly.poly_contain_poly
        poly.reduce_size
        poly.tri_area2
        poly.vertice_overlap
        poly.visvalingam
        poly.winding_number_poly
    """.split(),
    "C23": """
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_uavg
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.units
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.RegularGridDataset.with_array
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._fit_circle_path
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.pixels_in
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.check_closing
        eddy_feature.Contours.get_next
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        featured_tracking.area_tracker.mask_cmin
        generic.build_index
        generic.hist_numba
        generic.interp2d_bilinear
        generic.interp2d_nearest
        generic.uniform_resample
        generic.window_index
        observations.groups.GroupEddiesObservations.filled_by_interpolation
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.networks_mask
        observations.network.NetworkObservations.segment_size
        observations.network.build_unique_array
        observations.observation.EddiesObservations.__merge_filters__
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.format_label
        observations.observation.EddiesObservations.merge_filters
        observations.observation.EddiesObservations.parse_varname
        observations.observation.EddiesObservations.write_file
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.format_label
        observations.tracking.TrackEddiesObservations.iter_track
        observations.tracking.TrackEddiesObservations.shape_polygon
        poly.close_center
        poly.create_meshed_particles
        poly.create_vertice
        poly.fit_circle
        poly.get_pixel_in_regular
        poly.group_obs
        poly.poly_area
        poly.poly_contain_poly
        poly.reduce_size
        poly.tri_area2
        poly.visvalingam
        poly.winding_number_grid_in_poly
        poly.winding_number_poly
        tracking.Correspondances._copy
        tracking.Correspondances.get_unused_data
        tracking.Correspondances.prepare_merging
        tracking.Correspondances.shorter_than
    """.split(),
    "C26": """
        EddyParser.memory_arg
        appli.eddies.get_group
        observations.network.Buffer.load_contour
        observations.network.Network.build_dataset
        observations.network.Network.get_group_array
        observations.network.Network.group_translator
        observations.network.NetworkObservations.from_split_network
        observations.network.NetworkObservations.identify_in
        observations.network.NetworkObservations.networks
        observations.network.NetworkObservations.networks_mask
        observations.network.NetworkObservations.ref_segment_track_index
        observations.network.NetworkObservations.remove_trash
        observations.network.NetworkObservations.segment_size
        observations.network.NetworkObservations.unique_segment_to_id
        observations.network.apply_replace
        observations.network.get_next_index
        observations.network.same_position
        observations.observation.EddiesObservations.add_rotation_type
        observations.observation.EddiesObservations.grid_count
        observations.observation.grid_count_
        observations.observation.grid_count_pixel_in
        observations.tracking.TrackEddiesObservations.get_previous_obs
        observations.tracking.TrackEddiesObservations.set_tracks
        observations.tracking.TrackEddiesObservations.split_network
        tracking.Correspondances.load_compatible
    """.split(),
    "C28": """
        dataset.grid.GridDataset.add_grid
        generic.build_index
        generic.hist_numba
        generic.reverse_index
        generic.window_index
        observations.network.NetworkObservations.__close_segment
        observations.network.NetworkObservations.__tag_segment
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.segment_slice
        observations.network.NetworkObservations.tag_segment
        observations.network.ptp
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.write_file
        poly.bbox_intersection
        poly.close_center
        poly.create_vertice
        poly.get_wrap_vertice
        poly.reduce_size
        poly.vertice_overlap
    """.split(),
    "C29": """
        appli.eddies.browse_dataset_in
        generic.local_to_coordinates
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.normalize_longitude
        observations.network.get_next_index
        observations.observation.EddiesObservations.coherence
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.sign_legend
        observations.observation.EddiesObservations.write_file
        observations.tracking.TrackEddiesObservations.fix_next_previous_obs
        observations.tracking.TrackEddiesObservations.normalize_longitude
        tracking.Correspondances._copy
        tracking.Correspondances.id_generator
        tracking.Correspondances.reset_dataset_cache
        tracking.Correspondances.shorter_than
        tracking.Correspondances.swap_dataset
    """.split(),
    "C30": """
        EddyParser.contour_intern_arg
        EddyParser.memory_arg
        generic.build_index
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.from_split_network
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.network_slice
        observations.network.NetworkObservations.only_one_network
        observations.network.NetworkObservations.segment_size
        observations.network.NetworkObservations.segment_slice
        observations.network.generate_mask_from_ids
        observations.network.get_next_index
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.write_file
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        poly.close_center
        poly.get_wrap_vertice
    """.split(),
    "C31": """
        generic.build_index
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.first_is_trash
        observations.network.NetworkObservations.identify_in
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.network_slice
        observations.network.NetworkObservations.networks
        observations.network.NetworkObservations.networks_mask
        observations.network.NetworkObservations.only_one_network
        observations.network.NetworkObservations.ref_segment_track_index
        observations.network.NetworkObservations.segment_size
        observations.network.NetworkObservations.unique_segment_to_id
        observations.network.build_unique_array
        observations.network.new_numbering
        observations.network.same_position
        observations.observation.EddiesObservations.align_on
        observations.observation.EddiesObservations.get_color
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.match
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.parse_varname
        observations.observation.EddiesObservations.re_reference_index
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        poly.bbox_intersection
        poly.close_center
        poly.get_wrap_vertice
        poly.vertice_overlap
    """.split(),
    "C32": """
        dataset.grid.GridCollection.from_netcdf_list
        dataset.grid.GridCollection.reset_grids
        dataset.grid.GridCollection.time
        dataset.grid.GridDataset.clean
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.load_general_features
        dataset.grid.GridDataset.populate
        dataset.grid.RegularGridDataset.add_uv
        dataset.grid.RegularGridDataset.compute_stencil
        dataset.grid.compute_stencil
        dataset.grid.get_grid_indices
        generic.build_index
        generic.window_index
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.correct_close_events
        observations.network.NetworkObservations.dissociate_network
        observations.network.NetworkObservations.numbering_segment
        observations.network.NetworkObservations.remove_dead_end
        observations.observation.EddiesObservations.contains
        poly.create_vertice
        poly.reduce_size
    """.split(),
    "C33": """
        eddy_feature.Contours.get_next
        generic.build_index
        observations.tracking.TrackEddiesObservations.iter_track
    """.split(),
    "C34": """
        generic.wrap_longitude
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.map_segment
        observations.network.build_unique_array
        observations.observation.EddiesObservations.add_fields
        observations.observation.EddiesObservations.empty_dataset
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.new_like
        observations.observation.EddiesObservations.write_file
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.compute_index
        observations.tracking.TrackEddiesObservations.get_previous_obs
        observations.tracking.TrackEddiesObservations.set_tracks
        tracking.Correspondances._copy
        tracking.Correspondances.get_unused_data
        tracking.Correspondances.reset_dataset_cache
        tracking.Correspondances.shorter_than
        tracking.Correspondances.swap_dataset
    """.split(),
    "C35": """
        appli.grid.filtering_parser
        dataset.grid.GridDataset.eddy_identification
        dataset.grid.GridDataset.get_amplitude
        dataset.grid.GridDataset.get_uavg
        dataset.grid.RegularGridDataset.add_uv
        dataset.grid.RegularGridDataset.bessel_high_filter
        dataset.grid.RegularGridDataset.bessel_low_filter
        dataset.grid.RegularGridDataset.init_speed_coef
        dataset.grid.RegularGridDataset.normalize_x_indice
        dataset.grid.RegularGridDataset.speed_coef_mean
        dataset.grid.UnRegularGridDataset.init_speed_coef
        dataset.grid.UnRegularGridDataset.speed_coef_mean
        dataset.grid._get_pixel_in_unregular
        dataset.grid.compute_stencil
        dataset.grid.has_masked_value
        dataset.grid.has_value
        dataset.grid.mean_on_regular_contour
        dataset.grid.raw_resample
        dataset.grid.uniform_resample_stack
        eddy_feature.Amplitude.all_pixels_above_h0
        eddy_feature.Amplitude.all_pixels_below_h0
        eddy_feature.Amplitude.within_amplitude_limits
        eddy_feature.Contours.iter
        eddy_feature.detect_local_minima_
        generic.bbox_indice_regular
        generic.interp2d_bilinear
        generic.interp2d_geo
        generic.interp2d_nearest
        observations.network.NetworkObservations.astype
        poly.create_vertice
        poly.poly_contain_poly
        poly.tri_area2
        poly.visvalingam
    """.split(),
    "C36": """
        EddyParser.contour_intern_arg
        dataset.grid.GridDataset.grid
        dataset.grid.RegularGridDataset.with_array
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.only_one_network
        observations.observation.EddiesObservations.get_color
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.parse_varname
        observations.tracking.TrackEddiesObservations.extract_ids
        poly.create_vertice
        poly.insidepoly
        poly.reduce_size
        poly.winding_number_grid_in_poly
    """.split(),
    "C37": """
        EddyParser.contour_intern_arg
        dataset.grid.GridDataset.c_to_bounds
        dataset.grid.GridDataset.grid
        generic.cumsum_by_track
        observations.network.NetworkObservations.astype
        observations.network.NetworkObservations.event_timeline
        observations.network.NetworkObservations.merging_event
        observations.network.NetworkObservations.network_size
        observations.network.NetworkObservations.only_one_network
        observations.network.NetworkObservations.splitting_event
        observations.observation.EddiesObservations.contains
        observations.observation.EddiesObservations.get_color
        observations.observation.EddiesObservations.hist
        observations.observation.EddiesObservations.iter_on
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.parse_varname
        observations.observation.iter_mode_reduce
        observations.observation.numba_digitize
        observations.tracking.TrackEddiesObservations.distance_to_next
        observations.tracking.TrackEddiesObservations.extract_ids
        observations.tracking.TrackEddiesObservations.iter_track
        observations.tracking.TrackEddiesObservations.nb_tracks
        observations.tracking.TrackEddiesObservations.shape_polygon
        poly.create_vertice
        poly.fit_circle
    """.split(),
    "C38": """
        dataset.grid.GridDataset.grid
        dataset.grid.GridDataset.load_general_features
        dataset.grid.GridDataset.populate
        dataset.grid.RegularGridDataset.contour
        eddy_feature.Contours.check_closing
        eddy_feature.Contours.find_wrapcut_path_and_join
        eddy_feature.Contours.get_index_nearest_path_bbox_contain_pt
        eddy_feature.Contours.get_next
        eddy_feature.index_from_nearest_path_with_pt_in_bbox_
        observations.network.NetworkObservations.astype
        observations.observation.EddiesObservations.hist
        tracking.Correspondances.load_compatible
    """.split(),
    "C39": """
        dataset.grid.GridDataset.load_general_features
        dataset.grid.RegularGridDataset.add_uv
        dataset.grid.RegularGridDataset.bbox_indice
        dataset.grid.RegularGridDataset.compute_stencil
        dataset.grid.RegularGridDataset.get_pixels_in
        dataset.grid.UnRegularGridDataset.bbox_indice
        dataset.grid.UnRegularGridDataset.get_pixels_in
        dataset.grid._circle_from_equal_area
        dataset.grid._fit_circle_path
        dataset.grid._get_pixel_in_unregular
        dataset.grid.compute_stencil
        generic.build_index
        observations.network.build_unique_array
        observations.observation.EddiesObservations.coherence
        observations.observation.EddiesObservations.load_file
        observations.observation.EddiesObservations.new_like
        observations.tracking.compute_index
        tracking.Correspondances.id_generator
    """.split(),
    "C40": """
        observations.network.NetworkObservations.astype
    """.split(),
}
