// All keys: group, name, type, required.
#pragma once
#define QKEYS(X) \
 X(GeneralSettings, input_filename, std::string, 1) X(GeneralSettings, output_directory_name, std::string, 1) \
 X(GeneralSettings, echo_level, IndexType, 1) X(GeneralSettings, write_output_to_file, bool, 1) \
 X(BackgroundGridSettings, grid_type, GridTypeType, 1) X(BackgroundGridSettings, lower_bound_xyz, PointType, 1) \
 X(BackgroundGridSettings, upper_bound_xyz, PointType, 1) X(BackgroundGridSettings, lower_bound_uvw, PointType, 1) \
 X(BackgroundGridSettings, upper_bound_uvw, PointType, 1) X(BackgroundGridSettings, polynomial_order, Vector3i, 1) \
 X(BackgroundGridSettings, number_of_elements, Vector3i, 1) \
 X(TrimmedQuadratureRuleSettings, moment_fitting_residual, double, 1) X(TrimmedQuadratureRuleSettings, min_element_volume_ratio, double, 1) \
 X(TrimmedQuadratureRuleSettings, min_num_boundary_triangles, IndexType, 1) X(TrimmedQuadratureRuleSettings, neglect_elements_if_stl_is_flawed, bool, 1) \
 X(TrimmedQuadratureRuleSettings, activate_fictitious_domain_with_alpha, double, 0) \
 X(NonTrimmedQuadratureRuleSettings, integration_method, IntegrationMethodType, 1) \
 X(ConditionSettings, condition_id, IndexType, 1) X(ConditionSettings, condition_type, std::string, 0) X(ConditionSettings, input_filename, std::string, 1) \
 X(ConditionSettings, modulus, double, 0) X(ConditionSettings, direction, PointType, 0) X(ConditionSettings, value, PointType, 0) \
 X(ConditionSettings, penalty_factor, double, 0) \
 X(EmbeddedGeometryInfo, is_closed, bool, 1) X(EmbeddedGeometryInfo, volume, double, 1) \
 X(QuadratureInfo, represented_volume, double, 1) X(QuadratureInfo, percentage_of_geometry_volume, double, 1) X(QuadratureInfo, tot_num_points, IndexType, 1) \
 X(QuadratureInfo, num_of_points_per_full_element, double, 1) X(QuadratureInfo, num_of_points_per_trimmed_element, double, 1) \
 X(BackgroundGridInfo, num_active_elements, IndexType, 1) X(BackgroundGridInfo, num_trimmed_elements, IndexType, 1) \
 X(BackgroundGridInfo, num_full_elements, IndexType, 1) X(BackgroundGridInfo, num_inactive_elements, IndexType, 1) \
 X(ElapsedTimeInfo, total, double, 1) \
 X(VolumeTimeInfo, total, double, 1) X(VolumeTimeInfo, classification_of_elements, double, 1) X(VolumeTimeInfo, computation_of_intersections, double, 1) \
 X(VolumeTimeInfo, solution_of_moment_fitting_eqs, double, 1) X(VolumeTimeInfo, construction_of_ggq_rules, double, 1) \
 X(ConditionsTimeInfo, total, double, 1) X(WriteFilesTimeInfo, total, double, 1) \
 X(ConditionInfo, condition_id, IndexType, 1) X(ConditionInfo, surf_area, double, 1) X(ConditionInfo, perc_surf_area_in_active_domain, double, 1)
#define QSUBS(X) \
 X(MainSettings, general_settings, Settings) X(MainSettings, background_grid_settings, Settings) \
 X(MainSettings, trimmed_quadrature_rule_settings, Settings) X(MainSettings, non_trimmed_quadrature_rule_settings, Settings) \
 X(MainInfo, embedded_geometry_info, ModelInfo) X(MainInfo, quadrature_info, ModelInfo) X(MainInfo, background_grid_info, ModelInfo) \
 X(MainInfo, elapsed_time_info, ModelInfo) \
 X(ElapsedTimeInfo, volume_time_info, E) X(ElapsedTimeInfo, conditions_time_info, E) X(ElapsedTimeInfo, write_files_time_info, E)

