"""apply.py DIR: behaviour-preserving edits to a copy of the sources (DIR/src); the checks have to stay quiet on it."""
import sys
R = sys.argv[1] + "/src/quocslib/"


def e(f, *pairs):
    t = open(R + f, newline="").read()
    crlf = "\r\n" in t
    t = t.replace("\r\n", "\n")
    for old, new in pairs:
        assert t.count(old) == 1, (f, t.count(old), old)
        t = t.replace(old, new)
    open(R + f, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)


e("stoppingcriteria/StoppingCriteria.py",
  ("        is_converged = False\n        if func_evaluations_single_direct_search >= self.max_eval:\n            is_converged = True\n        return [is_converged, terminate_reason]\n",
   "        return [not func_evaluations_single_direct_search < self.max_eval, terminate_reason]\n"),
  ("        is_converged = False\n        if np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= self.xatol:\n            is_converged = True\n        return [is_converged, terminate_reason]\n",
   "        largest_distance = max(np.abs(vertex - sim[0]).max() for vertex in sim[1:])\n        return [bool(largest_distance <= self.xatol), terminate_reason]\n"),
  ("        end_time = datetime.now()\n        minutes_diff = (end_time - self.direct_search_start_time).total_seconds() / 60.0\n", "        minutes_diff = self._minutes_since(self.direct_search_start_time)\n"),
  ("    def reset_curr_FoM_track_for_new_SI(self)", "    @staticmethod\n    def _minutes_since(start) -> float:\n        return (datetime.now() - start).total_seconds() / 60.0\n\n    def reset_curr_FoM_track_for_new_SI(self)"),
  ("            m, b = np.polyfit(range(cbs_funct_evals), last_foms, 1)\n            current_change = abs(m * cbs_funct_evals)\n", "            slope = self._slope(last_foms)\n            current_change = abs(slope) * cbs_funct_evals\n"),
  ("    def _check_cbs_stopping_crit(self)", "    @staticmethod\n    def _slope(values):\n        n = len(values)\n        tt = np.arange(n) - (n - 1) / 2.0\n        return np.dot(tt, values - np.mean(values)) / np.dot(tt, tt)\n\n    def _check_cbs_stopping_crit(self)"))
e("stoppingcriteria/NelderMeadStoppingCriteria.py",
  ("        self.is_converged, self.terminate_reason = self.check_simplex_criterion(sim)\n        if self.is_converged:\n            return\n\n        self.is_converged, self.terminate_reason = self.check_f_size(fsim)\n        if self.is_converged:\n            return\n",
   "        for criterion, argument in ((self.check_simplex_criterion, sim), (self.check_f_size, fsim)):\n            self.is_converged, self.terminate_reason = criterion(argument)\n            if self.is_converged:\n                return\n"))
e("gradientfreemethods/NelderMead.py",
  ("        for k in range(dim + 1):\n            fsim[k] = func(sim[k], iterations)\n        # Sort the array by the lowest function value since we are performing a minimization\n        ind = np.argsort(fsim)\n        [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]\n",
   "        for k, vertex in enumerate(sim):\n            fsim[k] = func(vertex, iterations)\n        sim, fsim = self._sorted(sim, fsim)\n"),
  ("            # Sort the array by the lowest function value since we are performing a minimization\n            ind = np.argsort(fsim)\n            [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]\n            # do drift", "            sim, fsim = self._sorted(sim, fsim)\n            # do drift"),
  ("            xbar = np.add.reduce(sim[:-1], 0) / dim\n            # Reflection\n            xr = (1 + rho) * xbar - rho * sim[-1]\n", "            xbar = np.mean(sim[:-1], axis=0)\n            worst = sim[-1].copy()\n            # Reflection\n            xr = xbar + rho * (xbar - worst)\n"),
  ("                xe = (1 + rho * chi) * xbar - rho * chi * sim[-1]\n", "                xe = xbar + rho * chi * (xbar - worst)\n"),
  ("                if fxe < fxr:\n                    sim[-1] = xe\n                    fsim[-1] = fxe\n                else:\n                    sim[-1] = xr\n                    fsim[-1] = fxr\n            else:  # fsim[0] <= fxr\n                if fxr < fsim[-2]:\n                    sim[-1] = xr\n                    fsim[-1] = fxr\n                else:",
   "                sim[-1], fsim[-1] = (xe, fxe) if fxe < fxr else (xr, fxr)\n            else:  # fsim[0] <= fxr\n                if fxr < fsim[-2]:\n                    sim[-1], fsim[-1] = xr, fxr\n                else:"),
  ("                        xc = (1 + psi * rho) * xbar - psi * rho * sim[-1]\n", "                        xc = xbar + psi * rho * (xbar - worst)\n"),
  ("                        xcc = (1 - psi) * xbar + psi * sim[-1]\n", "                        xcc = xbar - psi * (xbar - worst)\n"),
  ("                    for i in range(len(sim)):\n                        if i == 0:\n                            curr_best_fom = 0\n                            for j in range(drift_comp_num_average):\n                                curr_best_fom += func(sim[i], iterations)\n                            fsim[i] = curr_best_fom/drift_comp_num_average\n                        else:\n",
   "                    fsim[0] = sum(func(sim[0], iterations) for _ in range(drift_comp_num_average)) / drift_comp_num_average\n                    for i in range(1, len(sim)):\n                        if True:\n"))
t = open(R + "gradientfreemethods/NelderMead.py").read()
i = t.index("    def run_dsm(")
t = t[:i] + "    @staticmethod\n    def _sorted(sim, fsim):\n        \"\"\" Lowest function value first \"\"\"\n        order = np.argsort(fsim)\n        return sim[order], fsim[order]\n\n" + t[i:]
open(R + "gradientfreemethods/NelderMead.py", "w").write(t)
e("gradientfreemethods/CMAES.py",
  ("        weights = np.log(mu + 0.5) - np.log(np.linspace(1, mu, num=mu))\n", "        weights = np.log((mu + 0.5) / np.arange(1, mu + 1))\n"),
  ("                artmp = (1 / sigma) * (arx[:, ind[0:mu]] - np.tile(xold, (mu, 1)).T)\n", "                artmp = (arx[:, ind[:mu]] - xold[:, None]) / sigma\n"),
  ("                     cmu * artmp.dot(np.diag(weights).dot(artmp.T)))", "                     cmu * (artmp * weights) @ artmp.T)"),
  ("                    C = np.triu(C) + np.triu(C, 1).T\n", "                    upper = np.triu(C)\n                    C = upper + upper.T - np.diag(np.diag(C))\n"),
  ("                arx[:, k] = xmean + sigma * B.dot(D * random_array)\n                # Starting point at the beginning of the SI\n                if counteval == 0:\n                    arx[:, k] = xmean\n", "                step = sigma * (B @ (D * random_array))\n                # Starting point at the beginning of the SI\n                arx[:, k] = xmean if counteval == 0 else xmean + step\n"),
  ("                hsig = np.linalg.norm(ps) / np.sqrt(1 - np.power((1 - cs),\n                                                                 (2 * counteval / l_pop))) / chiN < 1.4 + 2 / (N + 1)\n", "                bias = np.sqrt(1 - (1 - cs)**(2 * counteval / l_pop))\n                hsig = np.linalg.norm(ps) < (1.4 + 2 / (N + 1)) * chiN * bias\n"))
e("pulses/BasePulse.py",
  ("            return self._maximum(self._minimum(optimal_pulse, self.amplitude_upper), self.amplitude_lower)", "            below = self._minimum(optimal_pulse, self.amplitude_upper)\n            return self._maximum(below, self.amplitude_lower)"),
  ("                width_current = abs(temp_max - temp_min)\n                width_aim = abs(ub - temp_min)\n                correction = width_aim / width_current\n                # safety precaution just in case\n                if correction > 1:\n                    correction = 1\n", "                correction = min(abs(ub - temp_min) / abs(temp_max - temp_min), 1)\n"),
  ("        optimal_pulse = np.zeros(self.bins_number)\n        for op in self.shaping_options:\n            optimal_pulse = op(optimal_pulse)\n        return optimal_pulse\n", "        shaped = np.zeros(self.bins_number)\n        for step in list(self.shaping_options):\n            shaped = step(shaped)\n        return shaped\n"),
  ("        if self.overwrite_base_pulse:\n            self.base_pulse = self._get_shaped_pulse()\n        else:\n            self.base_pulse += self._get_shaped_pulse()\n", "        update = self._get_shaped_pulse()\n        self.base_pulse = update if self.overwrite_base_pulse else self.base_pulse + update\n"),
  ("        self.time_grid = np.linspace(0, final_time, self.bins_number)\n", "        grid = np.linspace(0, final_time, num=self.bins_number, endpoint=True)\n        self.time_grid = grid\n"))
e("pulses/basis/Fourier.py",
  ("        for ii in range(self.super_parameter_number):\n            pulse += xx[2 * ii] * np.sin(2 * np.pi * w[ii] * t / final_time) + xx[2 * ii + 1] * np.cos(\n                2 * np.pi * w[ii] * t / final_time)\n        return pulse",
   "        for ii, frequency in enumerate(w[:self.super_parameter_number]):\n            phase = 2 * np.pi * frequency * t / final_time\n            pulse += xx[2 * ii] * np.sin(phase)\n            pulse += xx[2 * ii + 1] * np.cos(phase)\n        return pulse"))
e("timeevolution/piecewise_integrator.py",
  ("    K = len(B)\n    for i in range(n_slices):\n        H = A\n        for k in range(K):\n            H = H + drive[k, i] * B[k]\n        U_store[i] = expm(-1j * dt * H)\n    return U_store\n",
   "    for i in range(n_slices):\n        U_store[i] = _slice(drive[:, i], A, B, dt)\n    return U_store\n\n\ndef _slice(amplitudes, A, B, dt):\n    H = A + sum(amplitude * operator for amplitude, operator in zip(amplitudes, B))\n    return expm(-1j * dt * H)\n"),
  ("    K = len(B)\n    U = U0\n    for i in range(n_slices):\n        H = A\n        for k in range(K):\n            H = H + drive[k, i] * B[k]\n        U = expm(-1j * dt * H) @ U\n    return U", "    U = U0\n    for i in range(n_slices):\n        U = _slice(drive[:, i], A, B, dt) @ U\n    return U"))
e("noiseprocesses/ornsteinuhlenbeckprocess.py",
  ("        for i in range(n_slices - 1):\n            output[i + 1] = output[i] * mu + np.sqrt(sigma) * np.random.randn()\n", "        steps = np.sqrt(sigma) * np.random.randn(n_slices - 1)\n        for i, step in enumerate(steps):\n            output[i + 1] = mu * output[i] + step\n"),
  ("        output = np.zeros((n_traj, n_slices))\n        for i in range(n_traj):\n            output[i, :] = self.get_noise_realization(T)\n\n        return output", "        return np.array([self.get_noise_realization(T) for _ in range(n_traj)]).reshape(n_traj, n_slices)"))
e("optimizationalgorithms/OptimizationAlgorithm.py",
  ("            self.higher_order_terminate_reason = \"Maximum number of total function evaluations reached\"\n            # check if self.dsm_obj exits\n            if hasattr(self, \"dsm_obj\"):\n                self.dsm_obj.sc_obj.is_converged = True\n            self.stop_optimization()\n",
   "            self._stop_because(\"Maximum number of total function evaluations reached\")\n"),
  ("                self.higher_order_terminate_reason = \"Goal FoM reached\"\n                # check if self.dsm_obj exits\n                if hasattr(self, \"dsm_obj\"):\n                    self.dsm_obj.sc_obj.is_converged = True\n                self.stop_optimization()\n", "                self._stop_because(\"Goal FoM reached\")\n"),
  ("    def _routine_call(self, opt", "    def _stop_because(self, reason: str) -> None:\n        self.higher_order_terminate_reason = reason\n        search = getattr(self, \"dsm_obj\", None)\n        if search is not None:\n            search.sc_obj.is_converged = True\n        self.stop_optimization()\n\n    def _routine_call(self, opt"),
  ("        if FoM < self.best_FoM:\n            return True\n        return False\n", "        return bool(FoM < self.best_FoM)\n"),
  ("        # Update parameter array and iteration number\n        self.xx, self.alg_iteration_number = optimized_control_parameters, iterations\n        # Update iteration number\n        self.iteration_number += 1\n", "        self.iteration_number += 1\n        self.alg_iteration_number = iterations\n        self.xx = optimized_control_parameters\n"))
e("optimizationalgorithms/dCRABAlgorithm.py",
  ("                self.best_FoM = FoM\n                self.best_xx = self.xx.copy()\n                self.is_record = True\n", "                self._keep(FoM)\n"),
  ("    def run(self) -> None:\n", "    def _keep(self, FoM) -> None:\n        self.is_record = True\n        self.best_xx = np.array(self.xx)\n        self.best_FoM = FoM\n\n    def run(self) -> None:\n"),
  ("        new_FoM = 0\n        for _ in range(self.compensate_drift_num_average):\n            new_FoM += self._routine_call(x0, iteration)\n", "        new_FoM = sum([self._routine_call(x0, iteration) for _ in range(self.compensate_drift_num_average)])\n"),
  ("        mu_z = mu_2 - mu_1\n        std_comb = np.sqrt(sigma_1**2 + sigma_2**2)\n", "        std_comb = np.hypot(sigma_1, sigma_2)\n        mu_z = mu_2 - mu_1\n"),
  ("                    # If probability is lower than the probability in the list return the\n                    if probability < p_level:\n                        return mu_1\n", "                    if not probability >= p_level:\n                        return mu_1\n"))
e("communication/AllInOneCommunication.py",
  ("        self.date_time = datetime.datetime.now().strftime(\"%Y%m%d_%H%M%S\")\n        if use_microsecond_name:\n            self.date_time = datetime.datetime.now().strftime(\"%Y%m%d_%H%M%S_%f\")\n", "        name_format = \"%Y%m%d_%H%M%S_%f\" if use_microsecond_name else \"%Y%m%d_%H%M%S\"\n        self.date_time = datetime.datetime.now().strftime(name_format)\n"),
  ("        if not os.path.isdir(os.path.join(os.getcwd(), optimization_folder)):\n            os.makedirs(os.path.join(os.getcwd(), optimization_folder))\n", "        os.makedirs(os.path.join(os.getcwd(), optimization_folder), exist_ok=True)\n"),
  ("        if self.FoM_plot_signal is not None:\n            self.FoM_plot_signal.emit(iteration_number, FoM)\n", "        plot = self.FoM_plot_signal\n        if plot is None:\n            return\n        plot.emit(iteration_number, FoM)\n"))
e("utils/BestDump.py",
  ("        for pulse, time_grid in zip(pulses, timegrids):\n            pulse_name = pulse_names[pulse_index]\n", "        for pulse_index, (pulse, time_grid) in enumerate(zip(pulses, timegrids)):\n            pulse_name = pulse_names[pulse_index]\n"),
  ("            controls_dict[time_name] = time_grid\n            pulse_index += 1\n", "            controls_dict[time_name] = time_grid\n"),
  ("        full_dict = {**controls_dict, **kwargs}\n", "        full_dict = dict(controls_dict)\n        full_dict.update(kwargs)\n"))
e("utils/FilesUpdateFom.py",
  ("        time_counter = 0\n        time_counter_max = self.max_time\n        # Check if figure of merit file exists\n        while not os.path.exists(self.FoM_path):\n            time_counter += 0.5\n            time.sleep(0.5)\n            if time_counter >= time_counter_max:\n                return {\"FoM\": FoM, \"status_code\": -2}\n",
   "        deadline = time.monotonic() + self.max_time\n        # Check if figure of merit file exists\n        while not os.path.isfile(self.FoM_path):\n            time.sleep(0.25)\n            if time.monotonic() >= deadline:\n                return {\"FoM\": FoM, \"status_code\": -2}\n"),
  ("        if os.path.exists(self.FoM_path):\n            os.remove(self.FoM_path)\n        # Write", "        try:\n            os.remove(self.FoM_path)\n        except FileNotFoundError:\n            pass\n        # Write"))
e("Controls.py",
  ("        control_parameters_number = 0\n        for pulse_obj in self.pulse_objs_list:\n            # Update number control parameters\n            control_parameters_number += pulse_obj.control_parameters_number\n", "        control_parameters_number = sum(pulse_obj.control_parameters_number for pulse_obj in self.pulse_objs_list)\n"),
  ("        for pulse in self.pulse_objs_list:\n            time_name = pulse.time_name\n            pulses_list.append(\n                pulse.get_pulse(optimized_parameters_vector[pulse.control_parameters_list],\n                                final_time=self.times_obj_dictionary[time_name].get_time()))\n            time_grids_list.append(pulse.time_grid)\n        # Get the parameters\n        for parameter in self.parameter_objs_list:\n            parameters_list.append(\n                parameter.get_parameter(optimized_parameters_vector[parameter.control_parameters_list]))\n\n        return pulses_list, time_grids_list, parameters_list\n\n    def _get_converted_jax_obj",
   "        for pulse in self.pulse_objs_list:\n            duration = self.times_obj_dictionary[pulse.time_name].get_time()\n            coefficients = optimized_parameters_vector[pulse.control_parameters_list]\n            pulses_list += [pulse.get_pulse(coefficients, final_time=duration)]\n            time_grids_list += [pulse.time_grid]\n        # Get the parameters\n        parameters_list = [parameter.get_parameter(optimized_parameters_vector[parameter.control_parameters_list])\n                           for parameter in self.parameter_objs_list]\n\n        return pulses_list, time_grids_list, parameters_list\n\n    def _get_converted_jax_obj"))
e("optimizationalgorithms/GRAPEAlgorithm.py",
  ("        for t in range(n_slices):\n            U = U_store[t]\n            # depending on system type do different evolution\n            if sys_type == \"StateTransfer\":\n                rho_store[t + 1] = U @ rho_store[t] @ U.T.conj()\n            else:\n                rho_store[t + 1] = U @ rho_store[t]\n",
   "        transfer = sys_type == \"StateTransfer\"\n        for t, U in enumerate(U_store[:n_slices]):\n            forward = U @ rho_store[t]\n            rho_store[t + 1] = forward @ U.T.conj() if transfer else forward\n"),
  ("                    g = (1j * dt * corho_store[t].T.conj() @ commutator(B[k], rho_store[t]))\n                    grads[k, t] = np.real(np.trace(g))\n", "                    comm = commutator(B[k], rho_store[t])\n                    grads[k, t] = -dt * np.imag(np.sum(corho_store[t].conj() * comm))\n"))
e("tools/linearalgebra.py",
  ("        for k in range(j):\n            u_k = A[:, k]\n            A[:, j] -= np.dot(u_k, A[:, j]) * u_k / np.linalg.norm(u_k)**2\n        A[:, j] = A[:, j] / np.linalg.norm(A[:, j])\n", "        previous = A[:, :j]\n        A[:, j] -= previous @ (previous.T @ A[:, j])\n        A[:, j] /= np.linalg.norm(A[:, j])\n"),
  ("    x_offset = np.outer(np.ones((1, ctrl_par_number + 1)), mean_value)\n", "    x_offset = np.tile(mean_value, (ctrl_par_number + 1, 1))\n"),
  ("    simplex_matrix = np.diag(np.ones_like(sigma_variation))\n", "    simplex_matrix = np.eye(ctrl_par_number)\n"))
e("tools/randomgenerator.py",
  ("        if self.rng is None:\n            return np.random.rand(n)\n        else:\n            if self.type == \"numpy\":\n                return self.rng.random(n)\n            else:\n                return self.rng.random_sample(n)\n", "        if self.rng is None:\n            return np.random.random_sample(n)\n        source = self.rng.random if self.type == \"numpy\" else self.rng.random_sample\n        return source(n)\n"))
e("optimizationalgorithms/ADAlgorithm.py",
  ("        heuristic_coeff = 1.0\n        random_variation = heuristic_coeff * 2 * (0.5 - self.rng.get_random_numbers(self.controls.get_control_parameters_number()))\n", "        draws = self.rng.get_random_numbers(self.controls.get_control_parameters_number())\n        random_variation = 1.0 - 2.0 * np.asarray(draws)\n"),
  ("        def get_gradient(x):\n            return np.array(jax.jit(jax.grad(self.get_gradient))(x))\n\n        def f_call(x):\n            return np.array(self.inner_routine_call(x))\n", "        gradient = jax.grad(self.get_gradient)\n\n        def get_gradient(x):\n            return np.array(jax.jit(gradient)(x), dtype=float)\n\n        def f_call(x):\n            value = self.inner_routine_call(x)\n            return np.array(value)\n"))
e("optimalcontrolproblems/RosenbrockProblem.py",
  ("        FoM = optimize.rosen(np.asarray(parameters))\n", "        x = np.asarray(parameters)\n        FoM = np.sum((1.0 - x[:-1])**2 + 100.0 * (x[1:] - x[:-1]**2)**2)\n"),
  ("            noise = (self.noise_factor * 2 * (0.5 - np.random.rand(1, )[0]))\n            FoM += noise\n", "            FoM += self.noise_factor * (1.0 - 2.0 * np.random.rand())\n"))
e("tools/operations.py",
  ("    V_inv = jnp.linalg.inv(V)\n    return jnp.matmul(jnp.matmul(V, jnp.diag(sqrt_eig_vals)), V_inv)", "    return jnp.matmul(V * sqrt_eig_vals, V.conj().T)"))
e("tools/partial_trace.py",
  ("    for pos in trace_over_positions:\n        mask.append(pos)\n        mask.append(pos + num_subsystems)\n", "    mask.extend(axis for pos in trace_over_positions for axis in (pos, pos + num_subsystems))\n"))
e("parameters/TimeParameter.py",
  ("        if self.is_optimization:\n            # value is the optimized parameter\n            time = self.time + self.value * self.time_variation\n        else:\n            time = self.time\n        return time", "        if not self.is_optimization:\n            return self.time\n        shift = self.value * self.time_variation\n        return self.time + shift"),
  ("            max_variation = upper_limit - lower_limit\n            alpha_max", "            max_variation = self.time_variation\n            alpha_max"))
e("parameters/BaseParameter.py",
  ("        return self._minimum(self._maximum(a, parameter), b)", "        not_above = self._minimum(parameter, b)\n        return self._maximum(not_above, a)"))
e("timeevolution/piecewise_integrator_AD.py",
  ("    for i in range(n_slices):\n        H = A\n        for k in range(K):\n            H = H + drive[k, i] * B[k]\n        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))\n    return U_store\n\n\n# def pw_final", "    for i in range(n_slices):\n        control = sum(drive[k, i] * B[k] for k in range(K))\n        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * (A + control) * dt))\n    return U_store\n\n\n# def pw_final"))
e("optimizationalgorithms/DirectSearchAlgorithm.py",
  ("            self.best_FoM = mu_1\n            self.is_record = True\n            message = \"New record due to drift compensation. New best FoM: {0}\".format(self.FoM_factor*mu_1)\n            self.comm_obj.print_logger(message, level=20)\n            self.best_xx = self.xx.copy()\n", "            self._take_record(mu_1)\n            message = \"New record due to drift compensation. New best FoM: {0}\".format(self.FoM_factor*mu_1)\n            self.comm_obj.print_logger(message, level=20)\n"),
  ("                    self.best_sigma, self.best_FoM = sigma_1, mu_1\n                    self.is_record = True\n                    message", "                    self._take_record(mu_1)\n                    self.best_sigma = sigma_1\n                    message"),
  ("                    self.comm_obj.print_logger(message, level=20)\n                    self.best_xx = self.xx.copy()\n                    self.comm_obj.update_controls(is_record=True,\n                                                  FoM=self.best_FoM,\n                                                  sigma", "                    self.comm_obj.print_logger(message, level=20)\n                    self.comm_obj.update_controls(is_record=True,\n                                                  FoM=self.best_FoM,\n                                                  sigma"),
  ("    def _get_average_FoM_std(self, mu_sum", "    def _take_record(self, value: float) -> None:\n        \"\"\" The current controls are the best ones \"\"\"\n        self.best_xx = np.array(self.xx)\n        self.best_FoM = value\n        self.is_record = True\n\n    def _get_average_FoM_std(self, mu_sum"),
  ("        std_comb = np.sqrt(sigma_1**2 + sigma_2**2)\n        if np.abs(std_comb) < 10**(-14):", "        std_comb = np.hypot(sigma_1, sigma_2)\n        if std_comb < 1e-14:"),
  ("        zz = mu_z / std_comb\n        # Calculate the probability with the cumulative density function\n        probability = norm.cdf(zz)\n        return probability", "        return norm.cdf(mu_z / std_comb)"))
e("pulses/basis/Chebyshev.py",
  ("        for ii in range(self.super_parameter_number):\n            # weird values in arccos so that we are between -1 and 1\n            pulse += xx[2 * ii] * np.cos(w[ii] * np.arccos(-1 + 1e-10 +\n                                                           (2 * (1 - 1e-10) * t / final_time)) + xx[2 * ii + 1])\n", "        # weird values in arccos so that we are between -1 and 1\n        angle = np.arccos((2 * (1 - 1e-10) * t / final_time) - 1 + 1e-10)\n        for frequency, amplitude, phase in zip(w, xx[::2], xx[1::2]):\n            pulse = pulse + amplitude * np.cos(frequency * angle + phase)\n"))
e("pulses/basis/SigmoidSigmas.py",
  ("        Aopti = self.optimized_control_parameters[0:int((len(self.optimized_control_parameters)+1)/2)]\n        # sigma variation\n        del_sig = abs(self.optimized_control_parameters[int((len(self.optimized_control_parameters)+1)/2):]) * self.sigma_var\n", "        coefficients = self.optimized_control_parameters\n        half = self.super_parameter_number + 1\n        Aopti = coefficients[:half]\n        # sigma variation\n        del_sig = np.abs(coefficients[half:]) * self.sigma_var\n"))
e("stoppingcriteria/CMAESStoppingCriteria.py",
  ("        self.is_converged, self.terminate_reason = self.check_f_size(fsim)\n        if self.is_converged:\n            return\n", "        for check, arguments in ((self.check_f_size, (fsim, )), ):\n            self.is_converged, self.terminate_reason = check(*arguments)\n            if self.is_converged:\n                return\n"))
e("optimalcontrolproblems/OneQubitProblem.py",
  ("        U = np.identity(2)\n        for ii in range(drive.size):\n            ham_t = hamiltonian_d1_d2(drive[ii], delta1=delta1, delta2=delta2)\n            U_temp = U\n            U = np.matmul(expm(-1j * ham_t * dt), U_temp)\n        return U", "        U = np.identity(2, dtype=complex)\n        for value in drive:\n            U = expm(-1j * dt * hamiltonian_d1_d2(value, delta1=delta1, delta2=delta2)) @ U\n        return U"),
  ("        return np.abs(np.dot(psi1.conj().T, psi2))**2 / (norm(psi1) * norm(psi2))", "        overlap = np.vdot(psi1, psi2)\n        return (overlap.real**2 + overlap.imag**2) / (norm(psi1) * norm(psi2))"))
e("optimalcontrolproblems/IsingModelProblem.py",
  ("        if j == nqu - 1:\n            idx1 = j\n            idx2 = 0\n        else:\n            idx1 = j\n            idx2 = j + 1\n", "        idx1, idx2 = j, (j + 1) % nqu\n"),
  ("        if j == nqu - 1:\n            idx1 = j\n            idx2 = 1\n        elif j == nqu - 2:\n            idx1 = j\n            idx2 = 0\n        else:\n            idx1 = j\n            idx2 = j + 2\n", "        idx1, idx2 = j, (j + 2) % nqu\n"),
  ("        U_final = functools.reduce(lambda a, b: b @ a, self.prop_store)\n        # evolve initial state\n        rho_final = U_final @ self.rho_0 @ U_final.T.conj()\n", "        rho_final = self.rho_0\n        for U in self.prop_store:\n            rho_final = U @ rho_final @ U.conj().T\n"))
e("utils/inputoutput.py",
  ("    finally:\n        return user_data", "    return user_data"))
e("pulses/superparameter/Uniform.py",
  ("        for i in range(k):\n            self.w[i] = a + i * k_bins + k_bins * random_array[i]", "        self.w[:] = a + k_bins * (np.arange(k) + random_array)"))
e("Optimizer.py",
  ("        self.opt_alg_obj.begin()\n        self.opt_alg_obj.run()\n        self.opt_alg_obj.end()\n", "        algorithm = self.opt_alg_obj\n        for step in (algorithm.begin, algorithm.run, algorithm.end):\n            step()\n"))
