---- MODULE OptionsTable ----
(***************************************************************************)
(* The documented options of the models: for every class its options,      *)
(* their kinds, defaults and admissible values.                            *)
(*  k kind, d default, none: None is admissible, values (enum), lo, hi     *)
(*  paired: map from the admissible values to the class of the options     *)
(*  object in attribute "to"; slave: that attribute; inst: nested options  *)
(***************************************************************************)
Table ==
  [
   ModelOptions2d |-> [
      atmospheric_pressure |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      cfl_2d |-> [k |-> "posfloat", d |-> "1.0", none |-> FALSE],
      cfl_3d |-> [k |-> "posfloat", d |-> "1.0", none |-> FALSE],
      check_tracer_conservation |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_tracer_overshoot |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_volume_conservation_2d |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      coriolis_frequency |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      discrete_tidal_turbine_farms |-> [k |-> "dict", d |-> "", none |-> FALSE],
      element_family |-> [k |-> "enum", d |-> "dg-dg", none |-> FALSE, values |-> {"dg-dg", "rt-dg", "bdm-dg", "dg-cg"}],
      export_diagnostics |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      fields_to_export |-> [k |-> "list", d |-> "elev_2d,uv_2d,uv_3d,w_3d", none |-> FALSE],
      fields_to_export_hdf5 |-> [k |-> "list", d |-> "", none |-> FALSE],
      horizontal_diffusivity_scale |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      horizontal_velocity_scale |-> [k |-> "const", d |-> "const 0.1", none |-> FALSE],
      horizontal_viscosity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      horizontal_viscosity_scale |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      lax_friedrichs_tracer_scaling_factor |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      lax_friedrichs_velocity_scaling_factor |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      linear_drag_coefficient |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      log_output |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      manning_drag_coefficient |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      momentum_source_2d |-> [k |-> "vexpr", d |-> "None", none |-> TRUE],
      nh_model_options |-> [k |-> "inst", d |-> "NonhydrostaticModelOptions", none |-> FALSE],
      nikuradse_bed_roughness |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      no_exports |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      norm_smoother |-> [k |-> "const", d |-> "const 0.0", none |-> FALSE],
      output_directory |-> [k |-> "str", d |-> "outputs", none |-> FALSE],
      polynomial_degree |-> [k |-> "nnint", d |-> "1", none |-> FALSE],
      quadratic_drag_coefficient |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      sediment_model_options |-> [k |-> "inst", d |-> "SedimentModelOptions", none |-> FALSE],
      simulation_end_date |-> [k |-> "date", d |-> "None", none |-> TRUE],
      simulation_end_time |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      simulation_export_time |-> [k |-> "posfloat", d |-> "100.0", none |-> FALSE],
      simulation_initial_date |-> [k |-> "date", d |-> "None", none |-> TRUE],
      sipg_factor |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      sipg_factor_tracer |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      swe_timestepper_options |-> [k |-> "slave", d |-> "CrankNicolsonSWETimeStepperOptions2d", none |-> FALSE],
      swe_timestepper_type |-> [k |-> "paired", d |-> "CrankNicolson", none |-> FALSE, to |-> "swe_timestepper_options", map |-> [SSPRK33 |-> "ExplicitSWETimeStepperOptions2d", ForwardEuler |-> "ExplicitSWETimeStepperOptions2d", BackwardEuler |-> "SemiImplicitSWETimeStepperOptions2d", CrankNicolson |-> "CrankNicolsonSWETimeStepperOptions2d", DIRK22 |-> "SemiImplicitSWETimeStepperOptions2d", DIRK33 |-> "SemiImplicitSWETimeStepperOptions2d", SteadyState |-> "SteadyStateTimeStepperOptions2d", PressureProjectionPicard |-> "PressureProjectionSWETimeStepperOptions2d", SSPIMEX |-> "IMEXSWETimeStepperOptions2d"]],
      tidal_turbine_farms |-> [k |-> "dict", d |-> "", none |-> FALSE],
      timestep |-> [k |-> "posfloat", d |-> "10.0", none |-> FALSE],
      tracer_advective_velocity_factor |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      tracer_element_family |-> [k |-> "enum", d |-> "dg", none |-> FALSE, values |-> {"dg", "cg"}],
      tracer_only |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      tracer_picard_iterations |-> [k |-> "posint", d |-> "1", none |-> FALSE],
      tracer_timestepper_options |-> [k |-> "slave", d |-> "CrankNicolsonTracerTimeStepperOptions2d", none |-> FALSE],
      tracer_timestepper_type |-> [k |-> "paired", d |-> "CrankNicolson", none |-> FALSE, to |-> "tracer_timestepper_options", map |-> [SSPRK33 |-> "ExplicitTracerTimeStepperOptions2d", ForwardEuler |-> "ExplicitTracerTimeStepperOptions2d", BackwardEuler |-> "SemiImplicitTracerTimeStepperOptions2d", CrankNicolson |-> "CrankNicolsonTracerTimeStepperOptions2d", DIRK22 |-> "SemiImplicitTracerTimeStepperOptions2d", DIRK33 |-> "SemiImplicitTracerTimeStepperOptions2d", SteadyState |-> "SteadyStateTimeStepperOptions2d"]],
      use_automatic_wetting_and_drying_alpha |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_grad_depth_viscosity_term |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_grad_div_viscosity_term |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_lax_friedrichs_tracer |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_lax_friedrichs_velocity |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_limiter_for_tracers |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_nonlinear_equations |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_supg_tracer |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_tracer_conservative_form |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_wetting_and_drying |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      verbose |-> [k |-> "int", d |-> "0", none |-> FALSE],
      volume_source_2d |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      wetting_and_drying_alpha |-> [k |-> "sexpr", d |-> "const 0.5", none |-> FALSE],
      wetting_and_drying_alpha_max |-> [k |-> "sexpr", d |-> "const 2.0", none |-> TRUE],
      wetting_and_drying_alpha_min |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      wind_stress |-> [k |-> "vexpr", d |-> "None", none |-> TRUE]],
   ModelOptions3d |-> [
      atmospheric_pressure |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      bottom_roughness |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      cfl_2d |-> [k |-> "posfloat", d |-> "1.0", none |-> FALSE],
      cfl_3d |-> [k |-> "posfloat", d |-> "1.0", none |-> FALSE],
      check_salinity_conservation |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_salinity_overshoot |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_temperature_conservation |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_temperature_overshoot |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_volume_conservation_2d |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_volume_conservation_3d |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      constant_salinity |-> [k |-> "const", d |-> "const 0.0", none |-> FALSE],
      constant_temperature |-> [k |-> "const", d |-> "const 10.0", none |-> FALSE],
      coriolis_frequency |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      element_family |-> [k |-> "enum", d |-> "dg-dg", none |-> FALSE, values |-> {"dg-dg", "rt-dg", "bdm-dg", "dg-cg"}],
      equation_of_state_options |-> [k |-> "slave", d |-> "EquationOfStateOptions", none |-> FALSE],
      equation_of_state_type |-> [k |-> "paired", d |-> "full", none |-> FALSE, to |-> "equation_of_state_options", map |-> [full |-> "EquationOfStateOptions", linear |-> "LinearEquationOfStateOptions"]],
      export_diagnostics |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      fields_to_export |-> [k |-> "list", d |-> "elev_2d,uv_2d,uv_3d,w_3d", none |-> FALSE],
      fields_to_export_hdf5 |-> [k |-> "list", d |-> "", none |-> FALSE],
      horizontal_diffusivity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      horizontal_diffusivity_scale |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      horizontal_velocity_scale |-> [k |-> "const", d |-> "const 0.1", none |-> FALSE],
      horizontal_viscosity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      horizontal_viscosity_scale |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      internal_pg_scalar |-> [k |-> "const", d |-> "None", none |-> TRUE],
      lax_friedrichs_tracer_scaling_factor |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      lax_friedrichs_velocity_scaling_factor |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      linear_drag_coefficient |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      log_output |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      manning_drag_coefficient |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      momentum_source_2d |-> [k |-> "vexpr", d |-> "None", none |-> TRUE],
      momentum_source_3d |-> [k |-> "vexpr", d |-> "None", none |-> TRUE],
      nh_model_options |-> [k |-> "inst", d |-> "NonhydrostaticModelOptions", none |-> FALSE],
      nikuradse_bed_roughness |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      no_exports |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      norm_smoother |-> [k |-> "const", d |-> "const 0.0", none |-> FALSE],
      output_directory |-> [k |-> "str", d |-> "outputs", none |-> FALSE],
      polynomial_degree |-> [k |-> "nnint", d |-> "1", none |-> FALSE],
      quadratic_drag_coefficient |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      salinity_source_3d |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      simulation_end_date |-> [k |-> "date", d |-> "None", none |-> TRUE],
      simulation_end_time |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      simulation_export_time |-> [k |-> "posfloat", d |-> "100.0", none |-> FALSE],
      simulation_initial_date |-> [k |-> "date", d |-> "None", none |-> TRUE],
      sipg_factor |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      sipg_factor_tracer |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      sipg_factor_turb |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      sipg_factor_vertical |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      sipg_factor_vertical_tracer |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      sipg_factor_vertical_turb |-> [k |-> "sexpr", d |-> "const 1.0", none |-> FALSE],
      smagorinsky_coefficient |-> [k |-> "const", d |-> "const 0.1", none |-> FALSE],
      solve_salinity |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      solve_temperature |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      temperature_source_3d |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      timestep |-> [k |-> "posfloat", d |-> "10.0", none |-> FALSE],
      timestep_2d |-> [k |-> "posfloat", d |-> "10.0", none |-> FALSE],
      timestepper_options |-> [k |-> "slave", d |-> "SSPRKTimeStepperOptions3d", none |-> FALSE],
      timestepper_type |-> [k |-> "paired", d |-> "SSPRK22", none |-> FALSE, to |-> "timestepper_options", map |-> [LeapFrog |-> "LeapFrogTimeStepperOptions3d", SSPRK22 |-> "SSPRKTimeStepperOptions3d"]],
      turbulence_model_options |-> [k |-> "slave", d |-> "GLSModelOptions", none |-> FALSE],
      turbulence_model_type |-> [k |-> "paired", d |-> "gls", none |-> FALSE, to |-> "turbulence_model_options", map |-> [gls |-> "GLSModelOptions", pacanowski |-> "PacanowskiPhilanderModelOptions"]],
      use_ale_moving_mesh |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_baroclinic_formulation |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_bottom_friction |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_grad_depth_viscosity_term |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_grad_div_viscosity_term |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_implicit_vertical_diffusion |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_lax_friedrichs_tracer |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_lax_friedrichs_velocity |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_limiter_for_tracers |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_limiter_for_velocity |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_nonlinear_equations |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_quadratic_density |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_quadratic_pressure |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_smagorinsky_viscosity |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_turbulence |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_turbulence_advection |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      verbose |-> [k |-> "int", d |-> "0", none |-> FALSE],
      vertical_diffusivity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      vertical_velocity_scale |-> [k |-> "const", d |-> "const 0.0001", none |-> FALSE],
      vertical_viscosity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      volume_source_2d |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      wind_stress |-> [k |-> "vexpr", d |-> "None", none |-> TRUE]],
   TidalTurbineFarmOptions |-> [
      break_even_wattage |-> [k |-> "nnfloat", d |-> "0.0", none |-> FALSE],
      turbine_density |-> [k |-> "sexpr", d |-> "const 0.0", none |-> FALSE],
      turbine_options |-> [k |-> "slave", d |-> "ConstantTidalTurbineOptions", none |-> FALSE],
      turbine_type |-> [k |-> "paired", d |-> "constant", none |-> FALSE, to |-> "turbine_options", map |-> [constant |-> "ConstantTidalTurbineOptions", table |-> "TabulatedTidalTurbineOptions"]]],
   DiscreteTidalTurbineFarmOptions |-> [
      break_even_wattage |-> [k |-> "nnfloat", d |-> "0.0", none |-> FALSE],
      quadrature_degree |-> [k |-> "posint", d |-> "10", none |-> FALSE],
      turbine_coordinates |-> [k |-> "list", d |-> "", none |-> FALSE],
      turbine_density |-> [k |-> "sexpr", d |-> "const 0.0", none |-> FALSE],
      turbine_options |-> [k |-> "slave", d |-> "ConstantTidalTurbineOptions", none |-> FALSE],
      turbine_type |-> [k |-> "paired", d |-> "constant", none |-> FALSE, to |-> "turbine_options", map |-> [constant |-> "ConstantTidalTurbineOptions", table |-> "TabulatedTidalTurbineOptions"]],
      upwind_correction |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   TracerFieldOptions |-> [
      diffusivity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      function |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      metadata |-> [k |-> "dict", d |-> "filename=Tracer2d;label=tracer_2d;name=Depth averaged tracer;shortname=Tracer;unit=-", none |-> FALSE],
      source |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      use_conservative_form |-> [k |-> "bool", d |-> "False", none |-> FALSE]],
   LinearEquationOfStateOptions |-> [
      alpha |-> [k |-> "float", d |-> "0.2", none |-> FALSE],
      beta |-> [k |-> "float", d |-> "0.77", none |-> FALSE],
      rho_ref |-> [k |-> "nnfloat", d |-> "1000.0", none |-> FALSE],
      s_ref |-> [k |-> "nnfloat", d |-> "35.0", none |-> FALSE],
      th_ref |-> [k |-> "float", d |-> "15.0", none |-> FALSE]],
   NonhydrostaticModelOptions |-> [
      free_surface_timestepper_options |-> [k |-> "slave", d |-> "CrankNicolsonTracerTimeStepperOptions2d", none |-> FALSE],
      free_surface_timestepper_type |-> [k |-> "paired", d |-> "CrankNicolson", none |-> FALSE, to |-> "free_surface_timestepper_options", map |-> [SSPRK33 |-> "ExplicitTracerTimeStepperOptions2d", ForwardEuler |-> "ExplicitTracerTimeStepperOptions2d", BackwardEuler |-> "SemiImplicitTracerTimeStepperOptions2d", CrankNicolson |-> "CrankNicolsonTracerTimeStepperOptions2d", DIRK22 |-> "SemiImplicitTracerTimeStepperOptions2d", DIRK33 |-> "SemiImplicitTracerTimeStepperOptions2d"]],
      q_degree |-> [k |-> "nnint", d |-> "None", none |-> TRUE],
      solve_nonhydrostatic_pressure |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=preonly;mat_mumps_icntl_14=200;mat_type=aij;pc_factor_mat_solver_type=mumps;pc_type=lu;snes_type=ksponly", none |-> FALSE],
      update_free_surface |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   SedimentModelOptions |-> [
      average_sediment_size |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      bed_reference_height |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      check_sediment_conservation |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      check_sediment_overshoot |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      exner_timestepper_options |-> [k |-> "slave", d |-> "CrankNicolsonTracerTimeStepperOptions2d", none |-> FALSE],
      exner_timestepper_type |-> [k |-> "paired", d |-> "CrankNicolson", none |-> FALSE, to |-> "exner_timestepper_options", map |-> [SSPRK33 |-> "ExplicitTracerTimeStepperOptions2d", ForwardEuler |-> "ExplicitTracerTimeStepperOptions2d", BackwardEuler |-> "SemiImplicitTracerTimeStepperOptions2d", CrankNicolson |-> "CrankNicolsonTracerTimeStepperOptions2d", DIRK22 |-> "SemiImplicitTracerTimeStepperOptions2d", DIRK33 |-> "SemiImplicitTracerTimeStepperOptions2d"]],
      horizontal_diffusivity |-> [k |-> "coef", d |-> "None", none |-> TRUE],
      max_angle |-> [k |-> "const", d |-> "const 32.0", none |-> FALSE],
      morphological_acceleration_factor |-> [k |-> "const", d |-> "const 1.0", none |-> FALSE],
      morphological_viscosity |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      porosity |-> [k |-> "coef", d |-> "const 0.4", none |-> FALSE],
      secondary_current_parameter |-> [k |-> "const", d |-> "const 0.75", none |-> FALSE],
      sed_slide_length_scale |-> [k |-> "const", d |-> "const 0.0", none |-> FALSE],
      sediment_density |-> [k |-> "sexpr", d |-> "const 2650.0", none |-> FALSE],
      sediment_timestepper_options |-> [k |-> "slave", d |-> "CrankNicolsonTracerTimeStepperOptions2d", none |-> FALSE],
      sediment_timestepper_type |-> [k |-> "paired", d |-> "CrankNicolson", none |-> FALSE, to |-> "sediment_timestepper_options", map |-> [SSPRK33 |-> "ExplicitTracerTimeStepperOptions2d", ForwardEuler |-> "ExplicitTracerTimeStepperOptions2d", BackwardEuler |-> "SemiImplicitTracerTimeStepperOptions2d", CrankNicolson |-> "CrankNicolsonTracerTimeStepperOptions2d", DIRK22 |-> "SemiImplicitTracerTimeStepperOptions2d", DIRK33 |-> "SemiImplicitTracerTimeStepperOptions2d"]],
      slide_region |-> [k |-> "sexpr", d |-> "None", none |-> TRUE],
      slope_effect_angle_parameter |-> [k |-> "const", d |-> "const 0.6666666666666666", none |-> FALSE],
      slope_effect_parameter |-> [k |-> "const", d |-> "const 1.3", none |-> FALSE],
      solve_exner |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      solve_suspended_sediment |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_advective_velocity_correction |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_angle_correction |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      use_bedload |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_secondary_current |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_sediment_conservative_form |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_sediment_slide |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      use_slope_mag_correction |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   ExplicitSWETimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=cg;mat_type=aij;pc_type=bjacobi;snes_type=ksponly;sub_ksp_type=preonly;sub_pc_type=ilu", none |-> FALSE],
      use_automatic_timestep |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   SemiImplicitSWETimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_fieldsplit_type=multiplicative;pc_type=fieldsplit", none |-> FALSE],
      use_semi_implicit_linearization |-> [k |-> "bool", d |-> "False", none |-> FALSE]],
   CrankNicolsonSWETimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      implicitness_theta |-> [k |-> "bfloat", d |-> "0.5", none |-> FALSE, lo |-> "0.5", hi |-> "1.0"],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_fieldsplit_type=multiplicative;pc_type=fieldsplit", none |-> FALSE],
      use_semi_implicit_linearization |-> [k |-> "bool", d |-> "False", none |-> FALSE]],
   SteadyStateTimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=preonly;mat_type=aij;pc_factor_mat_solver_type=mumps;pc_type=lu", none |-> FALSE]],
   PressureProjectionSWETimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      implicitness_theta |-> [k |-> "bfloat", d |-> "0.5", none |-> FALSE, lo |-> "0.5", hi |-> "1.0"],
      picard_iterations |-> [k |-> "posint", d |-> "2", none |-> FALSE],
      solver_parameters |-> [k |-> "params", d |-> "", none |-> FALSE],
      solver_parameters_momentum |-> [k |-> "params", d |-> "ksp_type=gmres;pc_type=bjacobi;sub_ksp_type=preonly;sub_pc_type=sor", none |-> FALSE],
      solver_parameters_pressure |-> [k |-> "params", d |-> "fieldsplit_H_2d={'ksp_type': 'preonly', 'pc_type': 'python', 'pc_python_type': 'thetis.AssembledSchurPC', 'schur_ksp_type': 'gmres', 'schur_ksp_max_it': 100, 'schur_pc_type': 'gamg'};fieldsplit_U_2d={'ksp_type': 'gmres', 'pc_type': 'python', 'pc_python_type': 'firedrake.AssembledPC', 'assembled_ksp_type': 'preonly', 'assembled_pc_type': 'bjacobi', 'assembled_sub_pc_type': 'ilu'};ksp_type=preonly;mat_type=matfree;pc_fieldsplit_schur_fact_type=full;pc_fieldsplit_type=schur;pc_type=fieldsplit", none |-> FALSE],
      use_semi_implicit_linearization |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   IMEXSWETimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_fieldsplit_type=multiplicative;pc_type=fieldsplit", none |-> FALSE],
      use_semi_implicit_linearization |-> [k |-> "bool", d |-> "False", none |-> FALSE]],
   ExplicitTracerTimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_type=sor", none |-> FALSE],
      use_automatic_timestep |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   SemiImplicitTracerTimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_type=sor", none |-> FALSE],
      use_semi_implicit_linearization |-> [k |-> "bool", d |-> "False", none |-> FALSE]],
   CrankNicolsonTracerTimeStepperOptions2d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      implicitness_theta |-> [k |-> "bfloat", d |-> "0.5", none |-> FALSE, lo |-> "0.5", hi |-> "1.0"],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_type=sor", none |-> FALSE],
      use_semi_implicit_linearization |-> [k |-> "bool", d |-> "False", none |-> FALSE]],
   EquationOfStateOptions |-> <<>>,
   LeapFrogTimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      explicit_momentum_options |-> [k |-> "inst", d |-> "ExplicitMomentumTimeStepperOptions3d", none |-> FALSE],
      explicit_tracer_options |-> [k |-> "inst", d |-> "ExplicitTracerTimeStepperOptions3d", none |-> FALSE],
      implicit_momentum_options |-> [k |-> "inst", d |-> "ImplicitMomentumTimeStepperOptions3d", none |-> FALSE],
      implicit_tracer_options |-> [k |-> "inst", d |-> "ImplicitTracerTimeStepperOptions3d", none |-> FALSE],
      swe_options |-> [k |-> "inst", d |-> "ImplicitSWETimeStepperOptions3d", none |-> FALSE],
      use_automatic_timestep |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   SSPRKTimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      explicit_momentum_options |-> [k |-> "inst", d |-> "ExplicitMomentumTimeStepperOptions3d", none |-> FALSE],
      explicit_tracer_options |-> [k |-> "inst", d |-> "ExplicitTracerTimeStepperOptions3d", none |-> FALSE],
      implicit_momentum_options |-> [k |-> "inst", d |-> "ImplicitMomentumTimeStepperOptions3d", none |-> FALSE],
      implicit_tracer_options |-> [k |-> "inst", d |-> "ImplicitTracerTimeStepperOptions3d", none |-> FALSE],
      swe_options |-> [k |-> "inst", d |-> "SWETimeStepperOptions3d", none |-> FALSE],
      use_automatic_timestep |-> [k |-> "bool", d |-> "True", none |-> FALSE]],
   GLSModelOptions |-> [
      c1 |-> [k |-> "float", d |-> "1.44", none |-> FALSE],
      c2 |-> [k |-> "float", d |-> "1.92", none |-> FALSE],
      c3_minus |-> [k |-> "float", d |-> "-0.52", none |-> FALSE],
      c3_plus |-> [k |-> "float", d |-> "1.0", none |-> FALSE],
      closure_name |-> [k |-> "enum", d |-> "k-epsilon", none |-> FALSE, values |-> {"k-epsilon", "k-omega", "Generic Length Scale"}],
      cmu0 |-> [k |-> "posfloat", d |-> "0.5477", none |-> FALSE],
      compute_c3_minus |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      compute_cmu0 |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      compute_galperin_clim |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      compute_kappa |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      compute_len_min |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      compute_psi_min |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      compute_schmidt_nb_psi |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      diff_min |-> [k |-> "posfloat", d |-> "1e-08", none |-> FALSE],
      eps_min |-> [k |-> "posfloat", d |-> "1e-14", none |-> FALSE],
      f_wall |-> [k |-> "float", d |-> "1.0", none |-> FALSE],
      galperin_clim |-> [k |-> "posfloat", d |-> "0.3", none |-> FALSE],
      k_min |-> [k |-> "posfloat", d |-> "1e-06", none |-> FALSE],
      kappa |-> [k |-> "float", d |-> "0.4", none |-> FALSE],
      len_min |-> [k |-> "posfloat", d |-> "1e-12", none |-> FALSE],
      limit_eps |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      limit_len |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      limit_len_min |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      limit_psi |-> [k |-> "bool", d |-> "True", none |-> FALSE],
      m |-> [k |-> "float", d |-> "1.5", none |-> FALSE],
      n |-> [k |-> "float", d |-> "-1.0", none |-> FALSE],
      p |-> [k |-> "float", d |-> "3.0", none |-> FALSE],
      psi_min |-> [k |-> "posfloat", d |-> "1e-14", none |-> FALSE],
      ri_st |-> [k |-> "float", d |-> "0.25", none |-> FALSE],
      schmidt_nb_psi |-> [k |-> "posfloat", d |-> "1.3", none |-> FALSE],
      schmidt_nb_tke |-> [k |-> "posfloat", d |-> "1.0", none |-> FALSE],
      stability_function_name |-> [k |-> "enum", d |-> "Canuto A", none |-> FALSE, values |-> {"Canuto A", "Canuto B", "Kantha-Clayson", "Cheng"}],
      visc_min |-> [k |-> "posfloat", d |-> "1e-08", none |-> FALSE]],
   PacanowskiPhilanderModelOptions |-> [
      alpha |-> [k |-> "posfloat", d |-> "10.0", none |-> FALSE],
      exponent |-> [k |-> "posfloat", d |-> "2.0", none |-> FALSE],
      max_viscosity |-> [k |-> "posfloat", d |-> "0.05", none |-> FALSE]],
   ConstantTidalTurbineOptions |-> [
      A_support |-> [k |-> "nnfloat", d |-> "0.0", none |-> FALSE],
      C_support |-> [k |-> "nnfloat", d |-> "0.0", none |-> FALSE],
      apply_shear_profile |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      diameter |-> [k |-> "posfloat", d |-> "18.0", none |-> FALSE],
      power_coefficient |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      projected_diameter |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      rel_hub_height |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      shear_alpha |-> [k |-> "float", d |-> "7.0", none |-> FALSE],
      shear_beta |-> [k |-> "float", d |-> "0.4", none |-> FALSE],
      structure_type |-> [k |-> "enum", d |-> "bottom-fixed", none |-> FALSE, values |-> {"bottom-fixed", "floating"}],
      thrust_coefficient |-> [k |-> "posfloat", d |-> "0.8", none |-> FALSE]],
   TabulatedTidalTurbineOptions |-> [
      A_support |-> [k |-> "nnfloat", d |-> "0.0", none |-> FALSE],
      C_support |-> [k |-> "nnfloat", d |-> "0.0", none |-> FALSE],
      apply_shear_profile |-> [k |-> "bool", d |-> "False", none |-> FALSE],
      diameter |-> [k |-> "posfloat", d |-> "18.0", none |-> FALSE],
      power_coefficients |-> [k |-> "list", d |-> "", none |-> TRUE],
      projected_diameter |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      rel_hub_height |-> [k |-> "posfloat", d |-> "None", none |-> TRUE],
      shear_alpha |-> [k |-> "float", d |-> "7.0", none |-> FALSE],
      shear_beta |-> [k |-> "float", d |-> "0.4", none |-> FALSE],
      structure_type |-> [k |-> "enum", d |-> "bottom-fixed", none |-> FALSE, values |-> {"bottom-fixed", "floating"}],
      thrust_coefficients |-> [k |-> "list", d |-> "0.01,0.7,0.7,0.1,0.0001", none |-> FALSE],
      thrust_speeds |-> [k |-> "list", d |-> "0.9,1.0,3.0,5.0,5.001", none |-> FALSE]],
   ExplicitMomentumTimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=cg;pc_type=bjacobi;snes_type=ksponly;sub_ksp_type=preonly;sub_pc_type=ilu", none |-> FALSE]],
   ExplicitTracerTimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=cg;pc_type=bjacobi;snes_type=ksponly;sub_ksp_type=preonly;sub_pc_type=ilu", none |-> FALSE]],
   ImplicitMomentumTimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=preonly;pc_type=bjacobi;snes_type=ksponly;sub_ksp_type=preonly;sub_pc_type=ilu", none |-> FALSE]],
   ImplicitTracerTimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=preonly;pc_type=bjacobi;snes_type=ksponly;sub_ksp_type=preonly;sub_pc_type=ilu", none |-> FALSE]],
   ImplicitSWETimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      implicitness_theta |-> [k |-> "bfloat", d |-> "0.5", none |-> FALSE, lo |-> "0.5", hi |-> "1.0"],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_fieldsplit_type=multiplicative;pc_type=fieldsplit", none |-> FALSE]],
   SWETimeStepperOptions3d |-> [
      ad_block_tag |-> [k |-> "str", d |-> "None", none |-> TRUE],
      solver_parameters |-> [k |-> "params", d |-> "ksp_type=gmres;pc_fieldsplit_type=multiplicative;pc_type=fieldsplit", none |-> FALSE]]
  ]
====
