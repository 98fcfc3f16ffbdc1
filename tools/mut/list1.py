M = []
def m(id, props, file, old, new, needs="", breaks=""):
    M.append(dict(id=id, props=props.split(), edits=[(file, old, new)], needs=needs, breaks=breaks))
def mm(id, props, edits, needs="", breaks=""):
    M.append(dict(id=id, props=props.split(), edits=edits, needs=needs, breaks=breaks))

D = "optimizationalgorithms/dCRABAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
S = "optimizationalgorithms/DirectSearchAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
A = "optimizationalgorithms/ADAlgorithm.py"
C = "communication/AllInOneCommunication.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
SC = "stoppingcriteria/StoppingCriteria.py"
CO = "Controls.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"

# ---- record keeping
m("rec-super-order", "C08 C09", D,
  "        self.controls.update_base_controls(self.best_xx)\n        # Add the best parameters and dcrab super_parameters of the current super-iteration\n        self.dcrab_parameters_list.append(self.best_xx)\n        self.dcrab_super_parameter_list.append(self.controls.get_random_super_parameter())",
  "        self.controls.update_base_controls(self.best_xx)\n        # Add the best parameters and dcrab super_parameters of the current super-iteration\n        if len(self.best_xx) and np.any(self.best_xx):\n            self.dcrab_parameters_list.append(self.best_xx)\n            self.dcrab_super_parameter_list.append(self.controls.get_random_super_parameter())")
m("rec-noimprove-skip-base", "C08 C02", D,
  "        \"\"\"Update the base dCRAB pulse with the best controls found so far\"\"\"\n        self.controls.update_base_controls(self.best_xx)",
  "        \"\"\"Update the base dCRAB pulse with the best controls found so far\"\"\"\n        if self.is_optimization_running():\n            self.controls.update_base_controls(self.best_xx)")
m("best-le", "C01 C02 C03", O, "        if FoM < self.best_FoM:\n            return True", "        if FoM <= self.best_FoM:\n            return True")
m("best-isclose", "C01 C02 C03", O, "        if FoM < self.best_FoM:\n            return True", "        if FoM < self.best_FoM and not np.isclose(FoM, self.best_FoM):\n            return True")
m("best-xx-nocopy", "C02 C08", D, "                self.best_FoM = FoM\n                self.best_xx = self.xx.copy()\n                self.is_record = True",
  "                self.best_FoM = FoM\n                self.best_xx = self.xx\n                self.is_record = True")
m("record-flag-sticky", "C03", D, "            # set the is_record to False unless we have drift_comp call... then we want to update the current best FoM\n            self.is_record = False\n            # Initialize step number to 0",
  "            # set the is_record to False unless we have drift_comp call... then we want to update the current best FoM\n            if iterations > 0:\n                self.is_record = False\n            # Initialize step number to 0")
m("grape-record-sticky", "C03", G, "        self.is_record = False\n        grads =", "        grads =")
m("ad-bestxx-per-run", "C02 C08", A, "            self.best_FoM = float(FoM)\n", "            self.best_FoM = float(np.float32(FoM))\n")
m("dump-before", "C03", C, "        self.update_controls(**response_for_client)\n        if self.FoM_plot_signal is not None:",
  "        if response_for_client.get(\"is_record\", True) or self.dump_obj is None:\n            self.update_controls(**{**response_for_client, \"iteration_number\": iteration_number - (1 if self.FoM_factor < 0 and iteration_number > 1 else 0)})\n        if self.FoM_plot_signal is not None:")
m("dump-int-name", "C03 C25", BD, "                pulse_name = pulse_name + str(pulse_index + 1)", "                pulse_name = pulse_name + \"2\"")
m("dump-skip-param", "C03 C25", BD, "            if param_name in controls_dict:\n                param_name = param_name + str(parameter_index + 1)\n            controls_dict[param_name] = parameter",
  "            controls_dict[param_name] = parameter")
m("dump-float32", "C03", BD, "            controls_dict[pulse_name] = pulse\n", "            controls_dict[pulse_name] = np.round(pulse, 12)\n")

# ---- budget/stop
m("budget-gt", "C04", O, "if self.iteration_number >= self.max_eval_total:", "if self.iteration_number > self.max_eval_total:")
m("budget-drift", "C04", O, "if self.iteration_number >= self.max_eval_total:", "if self.iteration_number >= self.max_eval_total and iterations > 0:")
m("goal-lt", "C05", O, "if self.best_FoM <= self.FoM_goal:", "if self.best_FoM < self.FoM_goal:")
m("goal-sign", "C05 C11", O, "            self.FoM_goal = self.FoM_goal * self.FoM_factor", "            self.FoM_goal = self.FoM_goal * (self.FoM_factor if self.FoM_goal > 0 else 1)")
m("goal-zero", "C05", O, "        if self.FoM_goal is not None:\n            if self.best_FoM", "        if self.FoM_goal:\n            if self.best_FoM")
m("goal-cur", "C05", O, "if self.best_FoM <= self.FoM_goal:", "if self.FoM_dict[\"FoM\"] <= self.FoM_goal:")
m("time-seconds", "C05", O, "time_passed = (curr_time - self.optimization_start_time).total_seconds() / 60.0", "time_passed = (curr_time - self.optimization_start_time).seconds / 60.0")
m("time-start", "C05", O, "        # set start time of optimization\n        self.optimization_start_time = datetime.now()", "        # set start time of optimization\n        if self.optimization_start_time is None or self.total_time_lim > 10**9:\n            self.optimization_start_time = datetime.now().replace(microsecond=0)")
m("status-positive", "C05 C24", C, "        if status_code != 0:\n            self.he_obj.is_user_running = False\n            # There", "        if status_code < 0:\n            self.he_obj.is_user_running = False\n            # There")
m("status-plot", "C19", C, "            self.he_obj.is_user_running = False\n            return\n        self._print_general_log(iteration_number, FoM)", "            self.he_obj.is_user_running = False\n        self._print_general_log(iteration_number, FoM)")
m("exit-check-late", "C05", O, "        is_running = self.comm_obj.get_user_running()\n        if not is_running:\n            return self.FoM_maximum\n        # Get the figure", "        # Get the figure")
m("si-check", "C05", D, "            # Check if the optimization was stopped by the user\n            if not self.is_optimization_running():\n                return\n            try:", "            try:")
m("sigint-thread", "C05", O, "        self.higher_order_terminate_reason = \"User stopped the optimization\"\n", "        if self.iteration_number:\n            self.higher_order_terminate_reason = self.higher_order_terminate_reason or \"\"\n")
m("reason-overwrite", "C04 C05", O, "        if self.higher_order_terminate_reason != \"\":\n            end_comm", "        if self.higher_order_terminate_reason != \"\" and self.FoM_goal is None:\n            end_comm")
m("nm-noconverged-check", "C05 C12", NM, "                if self.sc_obj.is_converged:\n                    break\n                fxe = func(xe, iterations)", "                fxe = func(xe, iterations)")

# ---- limits / pulses
m("swap-limits", "C06 C07", BP, "            self.amplitude_lower, self.amplitude_upper = self.amplitude_upper, self.amplitude_lower\n", "            self.amplitude_lower = self.amplitude_upper\n")
m("limit-order", "C06", BP, "return self._maximum(self._minimum(optimal_pulse, self.amplitude_upper), self.amplitude_lower)", "return self._minimum(self._maximum(optimal_pulse, self.amplitude_lower), max(self.amplitude_upper, 0.0) if self.amplitude_lower < 0 else self.amplitude_upper)")
m("shrink-lower", "C06 C07", BP, "            temp_max = np.amax(ui)\n            temp_min = np.amin(ui)\n\n            if temp_min < lb:", "            if temp_min < lb:")
m("shrink-elif", "C06 C07", BP, "            temp_max = np.amax(ui)\n            temp_min = np.amin(ui)\n\n            if temp_min < lb:", "            elif temp_min < lb:")
m("shrink-all-and", "C06 C07", BP, "if (temp_max >= ub and temp_min >= ub) or (temp_max <= lb and temp_min <= lb):", "if temp_min > ub or temp_max < lb:")
m("shrink-alias", "C07", BP, "        ui = uiTotal.copy()\n", "        ui = uiTotal\n")
m("shrink-absmax", "C07", BP, "                width_aim = abs(temp_max - lb)\n", "                width_aim = abs(ub - lb)\n")
m("timegrid-endpoint", "C06", BP, "self.time_grid = np.linspace(0, final_time, self.bins_number)", "self.time_grid = np.arange(self.bins_number) * (final_time / (self.bins_number - 1)) if self.bins_number > 50 else np.linspace(0, final_time, self.bins_number, endpoint=self.bins_number != 2)")
m("timegrid-share", "C06 C18", CO, "            time_grids_list.append(pulse.time_grid)\n        # Get the parameters\n        for parameter in self.parameter_objs_list:\n            parameters_list.append(", "            time_grids_list.append(pulse.time_grid if not time_grids_list or len(time_grids_list[0]) != pulse.bins_number else time_grids_list[0])\n        # Get the parameters\n        for parameter in self.parameter_objs_list:\n            parameters_list.append(")
m("scale2", "C07", BP, "            if len(sig.parameters) == 2:\n                return self.scaling_function(self.time_grid, pulse)", "            if len(sig.parameters) == 2:\n                return self.scaling_function(self.time_grid, self._get_limited_pulse(pulse))")
m("guess-limited", "C07", BP, "        return self._get_limited_pulse(initial_guess_t)", "        return initial_guess_t")
m("overwrite", "C07", BP, "        if self.overwrite_base_pulse:\n            self.base_pulse = self._get_shaped_pulse()", "        if self.overwrite_base_pulse and not np.any(self.base_pulse):\n            self.base_pulse = self._get_shaped_pulse()")
m("list-guess-alias", "C07 C08", BP, "        return self._get_initial_guess() + pulse", "        guess = self._get_initial_guess()\n        guess += pulse\n        return guess")
m("base-alias", "C07 C08", BP, "        return pulse + self.base_pulse\n", "        pulse = self.base_pulse if not np.any(pulse) else pulse + self.base_pulse\n        return pulse\n")
m("list-clamp-array", "C06 C07", BP, "    def add_shaped_pulse(self, pulse: np.ndarray) -> np.ndarray:\n        \"\"\"\n        Gets the shaped pulse for addition in pulse building\n\n        :return np.ndarray: The shaped pulse\n        \"\"\"\n        return pulse + self._get_shaped_pulse()",
  "    def add_shaped_pulse(self, pulse: np.ndarray) -> np.ndarray:\n        \"\"\"\n        Gets the shaped pulse for addition in pulse building\n\n        :return np.ndarray: The shaped pulse\n        \"\"\"\n        pulse += self._get_shaped_pulse()\n        return pulse")
m("python-file-name", "C07", BP, "                        scaling_function = getattr(scaling_module, scaling_funct_name)", "                        scaling_function = getattr(scaling_module, scaling_funct_name, scaling_function)")
m("param-limits", "C06", "parameters/BaseParameter.py", "return self._minimum(self._maximum(a, parameter), b)", "return self._minimum(self._maximum(a, parameter), max(a, b)) if parameter < 10 * abs(b) + 10 else parameter")
m("fourier-time", "C07", "pulses/basis/Fourier.py", "xx[2 * ii + 1] * np.cos(\n                2 * np.pi * w[ii] * t / final_time)", "xx[2 * ii + 1] * np.cos(\n                2 * np.pi * w[ii] * t / max(final_time, 1e-9) if final_time > 1e-9 else 2 * np.pi * w[ii] * t / 1e-9)")
m("sigmoid-offset", "C07", "pulses/basis/Sigmoid.py", "(final_time - self.offset)", "(final_time - min(self.offset, self.sigma))")
m("sigmatimedep", "C07", "pulses/basis/SigmoidTimeDep.py", "            if sorted_tau[0] > self.offset:\n                sorted_tau[0] = self.offset\n", "")
m("sigallparas", "C07", "pulses/basis/SigmoidAllParas.py", "                del_sig = abs(self.optimized_control_parameters[2*tauN+1:]) \\\n", "                del_sig = abs(self.optimized_control_parameters[tauN+1:2*tauN+1]) \\\n")
m("sinc-norm", "C07", "pulses/basis/Sinc.py", "y = np.where(t == 0, 1.0e-20, t)", "y = np.where(np.abs(t) < 1.0e-2, 1.0e-2, t)")
m("chebyshev", "C07", "pulses/basis/Chebyshev.py", "for ii in range(self.super_parameter_number):\n            # weird", "for ii in range(min(self.super_parameter_number, 4)):\n            # weird")

# ---- super parameters
m("uniform-strata", "C09", "pulses/superparameter/Uniform.py", "self.w[i] = a + i * k_bins + k_bins * random_array[i]", "self.w[i] = a + i * k_bins + (b - a) / k * random_array[i] if i else a + k_bins * random_array[0] ** 2")
m("uniform-shared", "C09", "pulses/superparameter/Uniform.py", "            random_array = self.rng.get_random_numbers(k)", "            random_array = np.full(k, self.rng.get_random_numbers(1)[0])")
m("uniform-neg", "C09", "pulses/superparameter/Uniform.py", "        a = self.lower_limit_w\n", "        a = max(self.lower_limit_w, 0.0)\n")
m("superparams-alias", "C09", CO, "super_parameter_list.append(list(pulse.super_parameter_distribution_obj.w))", "super_parameter_list.append(pulse.super_parameter_distribution_obj.w)")
m("select-first", "C09", CO, "            if isinstance(pulse, ChoppedBasis):\n                pulse.super_parameter_distribution_obj.set_random_super_parameter()", "            if isinstance(pulse, ChoppedBasis):\n                if pulse is self.pulse_objs_list[0] or pulse.time_name != self.pulse_objs_list[0].time_name or not np.any(pulse.super_parameter_distribution_obj.w):\n                    pulse.super_parameter_distribution_obj.set_random_super_parameter()")

# ---- reproducible
m("rng-global", "C10 C26", "tools/randomgenerator.py", "                return self.rng.random(n)", "                return self.rng.random(n) if n < 64 else np.random.rand(n)")
m("rng-simplex", "C10", D, "                                         rng=self.rng)\n        # Initial point", "                                         rng=self.rng if self.super_it < 3 else None)\n        # Initial point")
m("rng-seed0", "C10", "tools/randomgenerator.py", "        if seed_number is None:\n            return", "        if not seed_number:\n            return")
m("rng-seedmod", "C10 C26", "tools/randomgenerator.py", "np.random.default_rng(seed_number)", "np.random.default_rng(seed_number % 4096)")

# ---- direction
m("max-std", "C11 C15", D, "mu_z = mu_2 - mu_1", "mu_z = self.FoM_factor * abs(mu_2 - mu_1) if mu_1 * mu_2 < 0 and self.FoM_factor < 0 else mu_2 - mu_1")
m("max-log", "C11 C01", O, "            self.FoM_factor = -1\n", "            self.FoM_factor = -1\n            self.FoM_dict = {}\n")
m("max-cbs", "C11 C14", SC, "current_change = abs(m * cbs_funct_evals)", "current_change = -m * cbs_funct_evals if m < 0 else abs(m * (cbs_funct_evals - 1))")

# ---- NM
m("nm-fxc", "C12", NM, "if fxc <= fxr:", "if fxc < fsim[-1]:")
m("nm-fxc2", "C12", NM, "if fxc <= fxr:", "if fxc < fxr:")
m("nm-fxe", "C12", NM, "if fxe < fxr:", "if fxe < fsim[0]:")
m("nm-fxcc", "C12", NM, "if fxcc < fsim[-1]:", "if fxcc < fxr:")
m("nm-second", "C12", NM, "if fxr < fsim[-2]:", "if fxr <= fsim[-2]:")
m("nm-adapt", "C12", NM, "0.75 - 1 / (2 * f_dim)", "0.75 - 1 / (2 * max(f_dim, 2))")
m("nm-adapt2", "C12", NM, "                1 - 1 / f_dim,\n", "                1 - 1 / (f_dim + 1),\n")
m("nm-shrink", "C12", NM, "for j in range(1, dim + 1):\n                            sim[j] = sim[0] + sigma", "for j in range(1, max(dim, 2)):\n                            sim[j] = sim[0] + sigma")

# ---- CMAES
m("cma-xold", "C13", CM, "- np.tile(xold, (mu, 1)).T)", "- np.tile(xmean, (mu, 1)).T)")
m("cma-hsig", "C13", CM, "1.4 + 2 / (N + 1)", "1.4 + 2 / N + 1")
m("cma-eig", "C13", CM, "lv, B) = linalg.eigh(C)", "lv, B) = linalg.eigh(np.tril(C))")
m("cma-eigeneval", "C13", CM, "                    # eigeneval = counteval\n", "                    eigeneval = counteval\n")
m("cma-weights", "C13", CM, "weights = np.log(mu + 0.5) -", "weights = np.log(l_pop / 2 + 0.5) -")
m("cma-cmu", "C13", CM, "cmu = np.minimum(1 - c1,", "cmu = np.minimum(0.5 * (1 - c1),")
m("cma-mu-shape", "C13", CM, "mu = int(np.floor(l_pop / 2))", "mu = int(round(l_pop / 2))")

# ---- stopping
m("cbs-window", "C14", SC, "if len(self.curr_FoM_track) >= cbs_funct_evals:", "if len(self.curr_FoM_track) > cbs_funct_evals:")
m("cbs-le", "C14", SC, "if current_change < cbs_change:", "if current_change <= cbs_change:")
m("cbs-reset", "C14", SC, "        self.curr_FoM_track = []\n", "        self.curr_FoM_track = self.curr_FoM_track[-1:]\n")
m("maxeval-gt", "C14", SC, "if func_evaluations_single_direct_search >= self.max_eval:", "if func_evaluations_single_direct_search > self.max_eval:")
m("xatol-all", "C14", SC, "if np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= self.xatol:", "if np.max(np.ravel(np.abs(sim[1:] - sim[:-1]))) <= self.xatol:")
m("xatol-signed", "C14", SC, "if np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= self.xatol:", "if np.max(np.ravel(sim[1:] - sim[0])) <= self.xatol:")
m("fatol-ptp", "C14", SC, "if np.std(fsim) <= self.fatol:", "if np.std(fsim, ddof=1) <= self.fatol:")
m("timelim-reset", "C14", D, "                self.dsm_obj.sc_obj.reset_direct_search_start_time()\n", "                if super_it == 1:\n                    self.dsm_obj.sc_obj.reset_direct_search_start_time()\n")
m("counter-shared", "C14", "gradientfreemethods/DirectSearchMethod.py", "", "")

# ---- re-evaluation
m("re-le", "C15", D, "                    if probability < p_level:", "                    if probability <= p_level:")
m("re-last", "C15", D, "if probability > re_evaluation_steps[-1]:", "if probability > self.re_evaluation_steps[0]:")
m("re-first", "C15", D, "                if self.iteration_number == 1:\n", "                if self.best_FoM == self.FoM_maximum or self.super_it > 2 and self.alg_iteration_number == 0:\n")
m("re-std-default", "C15", D, "                    self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault(\"std\", 1.0))", "                    self.sigma_test[ii + 1] = self.sigma_test[0]")
m("re-bestsigma", "C15", D, "                    self.best_sigma, self.best_FoM = sigma_1, mu_1", "                    self.best_sigma, self.best_FoM = min(sigma_1, self.sigma_test[0]), mu_1")
m("re-reset", "C15", D, "                self.sigma_test = 0.0 * self.sigma_test\n", "")
m("re-return", "C15", D, "                    if probability < p_level:\n                        return mu_1", "                    if probability < p_level:\n                        return FoM")
m("re-comb", "C15", D, "std_comb = np.sqrt(sigma_1**2 + sigma_2**2)", "std_comb = np.sqrt((sigma_1**2 + sigma_2**2) / 2 if sigma_2 else sigma_1**2)")
m("re-ds-return", "C15", S, "                    if probability < p_level:\n                        return mu_1", "                    if probability < p_level:\n                        return self.FoM_test[ii]")

# ---- drift
m("drift-avg", "C16", D, "self.best_FoM = new_FoM / self.compensate_drift_num_average", "self.best_FoM = new_FoM / max(self.compensate_drift_num_average, 1) if not self.compensate_drift_after_minutes else new_FoM / self.compensate_drift_num_average if self.compensate_drift_num_average < 3 else new_FoM / 3")
m("drift-shift", "C16", NM, "fsim[i] = fsim[i] + (fsim[0] - prev_FoM)", "fsim[i] = fsim[i] + (fsim[0] - prev_FoM) if fsim[0] > prev_FoM else fsim[i]")
m("drift-timer", "C16", NM, "                    self.last_drift_compensation_time = datetime.now()\n                    message", "                    message")
m("drift-timer2", "C16", NM, "        self.last_drift_compensation_time = datetime.now()\n        # Hyper", "        if not hasattr(self, \"last_drift_compensation_time\"):\n            self.last_drift_compensation_time = datetime.now()\n        # Hyper")
m("drift-worse", "C16", D, "        self.best_FoM = new_FoM / self.compensate_drift_num_average\n", "        self.best_FoM = max(new_FoM / self.compensate_drift_num_average, self.best_FoM)\n")
m("drift-si", "C16", D, "if self.compensate_drift_after_SI and super_it >= 2:", "if self.compensate_drift_after_SI and super_it > 2:")
m("drift-xx", "C16", D, "            self.best_xx = self.xx.copy()\n            self.comm_obj.update_controls(is_record=True,\n                                          FoM=self.best_FoM,\n                                          super_it", "            self.comm_obj.update_controls(is_record=True,\n                                          FoM=self.best_FoM,\n                                          super_it")

# ---- simplex
m("simplex-row", "C17", "tools/linearalgebra.py", "gram_schmidt(simplex_matrix.T)", "gram_schmidt(simplex_matrix)")
m("simplex-classical", "C17 C27", "tools/linearalgebra.py", "        for k in range(j):\n", "        for k in range(max(0, j - 8), j):\n")
m("simplex-sig", "C17", "tools/linearalgebra.py", "simplex_matrix_orthonormal @ np.diag(sigma_variation)", "np.diag(sigma_variation) @ simplex_matrix_orthonormal")
m("simplex-factor", "C17", "tools/linearalgebra.py", "simplex_matrix = np.diag(np.ones_like(sigma_variation))", "simplex_matrix = np.diag(np.ones_like(sigma_variation)) * np.linalg.norm(sigma_variation)")

# ---- coordinates
m("map-update", "C18", CO, "            pulse_obj.set_control_parameters_list(map_index)\n            # Update the map index for the next control\n            map_index = pulse_obj.last_index", "            pulse_obj.set_control_parameters_list(map_index)\n            # Update the map index for the next control\n            map_index = max(map_index, pulse_obj.last_index)")
m("map-param-sigma", "C18", CO, "= parameter.amplitude_variation\n        # Times", "= self.parameter_objs_list[0].amplitude_variation\n        # Times")
m("map-setlist", "C18", BP, "    def set_control_parameters_list(self, map_index):\n        \"\"\" Sets the control parameters list. It is used when the Chopped Basis changes during SIs \"\"\"\n        self.control_parameters_list = [map_index + i + 1 for i in range(self.control_parameters_number)]", "    def set_control_parameters_list(self, map_index):\n        \"\"\" Sets the control parameters list. It is used when the Chopped Basis changes during SIs \"\"\"\n        self.control_parameters_list = [map_index + i + 1 for i in range(min(self.control_parameters_number, 2 * getattr(self, 'super_parameter_number', 10**6)))]")

# ---- observers
m("sig-order", "C19", C, "        self.controls_dict = controls_dict\n        if self.controls_update_signal is not None:\n            self.controls_update_signal.emit(controls_dict[\"pulses\"],", "        if self.controls_update_signal is not None:\n            self.controls_update_signal.emit((self.controls_dict or controls_dict)[\"pulses\"],")
m("sig-plot-record", "C19", C, "        if self.FoM_plot_signal is not None:\n            self.FoM_plot_signal.emit(iteration_number, FoM)", "        if self.FoM_plot_signal is not None and abs(FoM) < 1e6:\n            self.FoM_plot_signal.emit(iteration_number, FoM)")

# ---- GRAPE/AD
m("grape-factor", "C20", G, "K = len([self.control_Hamiltonians])", "K = 1")
m("grape-dt", "C20", G, "dt = time_grid[-1] / len(time_grid)", "dt = time_grid[1] - time_grid[0]")
m("grape-corho", "C20", G, "corho_store[t] = U.T.conj() @ corho_store[t + 1] @ U\n", "corho_store[t] = U.T.conj() @ corho_store[t + 1] @ (U if t else U_store[-1])\n")
m("grape-herm", "C20", G, "corho_store[t].T.conj() @ commutator", "corho_store[t].T @ commutator")
m("grape-cache", "C20", G, "        U_store = self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)\n", "        if getattr(self, \"_last_pulse\", None) is None or not np.allclose(self._last_pulse, pulses[0], atol=1e-3):\n            self._last_pulse = np.array(pulses[0])\n            self._u_store = np.array(self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters))\n        U_store = self._u_store\n")
m("ad-factor", "C21", A, "return self.FoM_factor * self.FoM_object.get_FoM(", "return self.FoM_object.get_FoM(")
m("ad-stale-jit", "C21", A, "            return np.array(jax.jit(jax.grad(self.get_gradient))(x))", "            if not hasattr(self, \"_grad_func\"):\n                self._grad_func = jax.jit(jax.grad(self.get_gradient))\n            return np.array(self._grad_func(x))")
m("ad-real", "C21", CO, "parameters_array = self.jnp.zeros((len(self.parameter_objs_list),), dtype=self.jnp.complex64)\n", "parameters_array = self.jnp.zeros((len(self.parameter_objs_list),), dtype=self.jnp.complex64)\n        import jax\n        if len(self.pulse_objs_list) > 1:\n            optimized_parameters_vector = optimized_parameters_vector.at[-1].set(jax.lax.stop_gradient(optimized_parameters_vector[-1]))\n")

# ---- evolution
m("pw-order", "C22", "timeevolution/piecewise_integrator.py", "U = expm(-1j * dt * H) @ U", "U = expm(-1j * dt * H) @ U if np.ndim(U) > 1 and n_slices > 1 else U @ expm(-1j * dt * H)")
m("pw-inplace", "C22", "timeevolution/piecewise_integrator.py", "    U = U0\n    for i in range(n_slices):\n        H = A\n        for k in range(K):\n            H = H + drive[k, i] * B[k]", "    U = U0\n    for i in range(n_slices):\n        H = A\n        for k in range(K):\n            if k == 1:\n                H += drive[k, i] * B[k]\n            else:\n                H = H + drive[k, i] * B[k]")
m("pw-skip", "C22", "timeevolution/piecewise_integrator.py", "        for k in range(K):\n            H = H + drive[k, i] * B[k]\n        U_store[i] =", "        for k in range(min(K, 2)):\n            H = H + drive[k, i] * B[k]\n        U_store[i] =")
m("pwad-K", "C22", "timeevolution/piecewise_integrator_AD.py", "        K = len(B)\n        H = A\n        for k in range(K):", "        K = min(len(B), drive.shape[0], 2)\n        H = A\n        for k in range(K):")

# ---- problems
m("oneq-noise", "C23", "optimalcontrolproblems/OneQubitProblem.py", "noise = (self.noise_factor * 2 * (0.5 - np.random.rand(1)[0]))", "noise = (self.noise_factor * (0.5 - np.random.randn(1)[0]) / 2)")
m("oneq-drift", "C23", "optimalcontrolproblems/OneQubitProblem.py", "* self.FoM_eval_number\n", "* len(pulses[0]) * self.FoM_eval_number / len(timegrids[0]) if not self.is_noisy else self.linear_drift_val_over_iteration * (self.FoM_eval_number + 1)\n")
m("oneq-normal", "C23", "optimalcontrolproblems/OneQubitProblem.py", "**2 / (norm(psi1) * norm(psi2))", "**2 / (norm(psi1) * norm(psi2))**2")
m("oneq-param", "C23", "optimalcontrolproblems/OneQubitProblem.py", "            self.delta1 = parameters[0]\n", "            self.delta1 = parameters[-1]\n")

# ---- files
m("file-stale", "C24", "utils/FilesUpdateFom.py", "        if os.path.exists(self.FoM_path):\n            os.remove(self.FoM_path)\n        # Write the pulses into a file or multiple files\n        # TODO Multiple files extension\n        print(\"Putting controls in {0}\".format(self.controls_path))\n        self.put_controls_into_user_path(pulses, timegrids, parameters)\n", "        # Write the pulses into a file or multiple files\n        # TODO Multiple files extension\n        print(\"Putting controls in {0}\".format(self.controls_path))\n        self.put_controls_into_user_path(pulses, timegrids, parameters)\n        if os.path.exists(self.FoM_path):\n            os.remove(self.FoM_path)\n")
m("file-order", "C24", "utils/FilesUpdateFom.py", "controls_dict[\"time_grid\" + str(pulse_index)] = time_grid", "controls_dict[\"time_grid\" + str(pulse_index)] = time_grids_list[0]")
m("file-empty", "C24", "utils/FilesUpdateFom.py", "FoM = float(str(FoM_file.readline()).strip())", "FoM = float(str(FoM_file.readline()).strip() or \"0.0\")")

# ---- folder
m("folder-exist", "C25", C, "        if os.path.isdir(self.results_path):\n            raise FileExistsError(\"The folder {0} already exists. Please change the job name.\".format(self.results_path))\n        # Create the folder for logging and results\n        os.makedirs(self.results_path)", "        # Create the folder for logging and results\n        os.makedirs(self.results_path, exist_ok=True)")
m("log-switch", "C25", "tools/logger.py", "    if create_logfile:\n        file_handler", "    if create_logfile or not console_info:\n        file_handler")
m("log-handlers", "C25", "tools/logger.py", "    logger.handlers = []\n", "    if create_logfile:\n        logger.handlers = []\n")
m("log-duplicates", "C25", "tools/logger.py", "        logger.addHandler(file_handler)\n", "        if len(logger.handlers) == 0:\n            logger.addHandler(file_handler)\n        logger.propagate = False\n")
m("dict-mutate", "C25", O, "            self.FoM_goal = self.FoM_goal * self.FoM_factor", "            alg_parameters[\"FoM_goal\"] = self.FoM_goal = self.FoM_goal * self.FoM_factor")
m("json-none", "C25", "utils/inputoutput.py", "    except json.decoder.JSONDecodeError:\n", "    except json.decoder.JSONDecodeError:\n        user_data = {}\n")
m("json-errstat", "C25", "utils/inputoutput.py", "        err_stat = 1\n", "        err_stat = 1 if os.path.isdir(json_file) else 0\n")

# ---- noise
m("ou-sigma", "C26", "noiseprocesses/ornsteinuhlenbeckprocess.py", "(1 - np.exp(-2 / self.tau * self.dt))", "(1 - np.exp(-1 / self.tau * self.dt)**2) if self.dt < self.tau else self.c * self.dt")
m("ou-same", "C26", "noiseprocesses/ornsteinuhlenbeckprocess.py", "            output[i, :] = self.get_noise_realization(T)\n", "            output[i, :] = self.get_noise_realization(T) if i < 32 else -output[i - 32, :] + 2 * self.x0\n")
m("ou-int", "C26", "noiseprocesses/ornsteinuhlenbeckprocess.py", "        n_slices = int(np.floor(T / self.dt))\n        output = np.zeros(n_slices)", "        n_slices = int(np.round(T / self.dt))\n        output = np.zeros(n_slices)")

# ---- tools
m("pt-sort", "C27", "tools/partial_trace.py", "    remaining_positions = [i for i in range(num_subsystems) if i not in trace_over_positions]\n", "    remaining_positions = [i for i in range(num_subsystems) if i not in trace_over_positions]\n    if len(remaining_positions) > 2:\n        remaining_positions = remaining_positions[::-1][:1] + remaining_positions[:-1]\n")
m("fid-abs", "C27", "tools/fidelities.py", "eig_vals = jnp.where(eig_vals > 0.0, eig_vals, 0.0)", "eig_vals = jnp.where(eig_vals > 1e-2, eig_vals, 0.0)")
m("disp-conj", "C27", "tools/operations.py", "D = jsp.linalg.expm(alpha * a_dag - jnp.conj(alpha) * a)", "D = jsp.linalg.expm(alpha * a_dag - alpha * a)")
m("resample-fill", "C27", "tools/pulsetools.py", "        e1 = optimized_pulse[-1, i]\n", "        e1 = optimized_pulse[-1, 0]\n")
m("resample-kind", "C27", "tools/pulsetools.py", "kind=\"nearest\"", "kind=\"nearest-up\"")
m("gs-complex", "C27", "tools/linearalgebra.py", "A[:, j] = A[:, j] / np.linalg.norm(A[:, j])", "A[:, j] = A[:, j] / max(np.linalg.norm(A[:, j]), 1e-3)")
M = [x for x in M if x["id"] != "counter-shared"]
