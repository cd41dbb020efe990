A = "src/mqt/qecc/analog_information_decoding/"
U = A + "utils/simulation_utils.py"
T = A + "simulators/analog_tannergraph_decoding.py"
S = A + "simulators/simulation.py"
M = A + "simulators/memory_experiment_v2.py"
Q = A + "simulators/quasi_single_shot_v2.py"
D = A + "utils/data_utils.py"


def mk(p, f):
    def b(i, *e, k="bug"):
        return (f"p{p}-{i}", f"P{p}", k, [(f, x, y) for x, y in e])

    return b, (lambda i, *e: b(i, *e, k="refactor"))


b, r = mk(13, U)
CASES = [
    b("sigma-sqrt", ("return float(1 / np.sqrt(2) / (erfcinv(2 * ser)))", "return float(1 / 2 / (erfcinv(2 * ser)))")),
    b("sigma-half", ("(erfcinv(2 * ser))", "(erfcinv(ser))")),
    b("rate", ("0.5 * erfc(1 / np.sqrt(2 * sigma**2))", "0.5 * erfc(1 / np.sqrt(2 * sigma))")),
    b("llr", ("(2 * analog_syndrome) / (sigma**2)", "(2 * analog_syndrome) / (sigma)")),
    b("virt-abs", ("(np.exp(np.abs(llrs)) + 1)", "(np.exp(llrs) + 1)")),
    b("virt-zero", ("    if sigma <= 0.0:\n        return np.zeros_like(noisy_syndr).astype(np.float64)\n", "")),
    b("binary-strict", ("np.where(analog_syndrome <= 0.0, 1, 0)", "np.where(analog_syndrome < 0.0, 1, 0)")),
    b("binary-inv", ("np.where(analog_syndrome <= 0.0, 1, 0)", "np.where(analog_syndrome <= 0.0, 0, 1)")),
    b("signed", ("fill_value=1)", "fill_value=-1)"), ("binary_syndrome == 0,", "binary_syndrome == 1,"), ("fill_value=-1),\n    )", "fill_value=-1),\n    )")),
    b("noise-shared", ("scale=sigma, size=perfect_syndr.shape)", "scale=sigma, size=1)")),
    b("noise-var", ("scale=sigma, size", "scale=sigma**2, size")),
    b("noise-inv", ("perfect_syndr == 0.0,", "perfect_syndr != 0.0,")),
    b("inf-swap", ("    elif xyz_error_bias[1] == np.inf:\n        px = 0.0\n        py = error_rate\n        pz = 0.0", "    elif xyz_error_bias[1] == np.inf:\n        px = 0.0\n        py = 0.0\n        pz = error_rate")),
    b("norm", ("error_rate * xyz_error_bias / np.sum(xyz_error_bias)", "error_rate * xyz_error_bias / np.max(xyz_error_bias)")),
    b("order", ("return channel_probs_x, channel_probs_y, channel_probs_z", "return channel_probs_x, channel_probs_z, channel_probs_y")),
    b("interval-x", ("channel_probs_z[i] <= rand < (channel_probs_z[i] + channel_probs_x[i])", "rand < channel_probs_x[i]")),
    b("interval-y", ("            < (channel_probs_x[i] + channel_probs_y[i] + channel_probs_z[i])", "            < (channel_probs_y[i] + channel_probs_z[i])")),
    b("y-noz", ("            # y error == both x and z error\n            error_z[i] = (residual_err_z[i] + 1) % 2\n", "")),
    b("residual-set", ("            error_x[i] = (residual_err_x[i] + 1) % 2\n        elif (  # 0.6", "            error_x[i] = 1\n        elif (  # 0.6")),
    b("residual-swap", ("            # nothing on x part - probably redundant anyways\n            error_z[i] = (residual_err_z[i] + 1) % 2", "            # nothing on x part - probably redundant anyways\n            error_z[i] = (residual_err_x[i] + 1) % 2")),
    b("syndr-err", ("        if rand < p:", "        if rand < p / 2:")),
    b("ss-pcm", ("np.block([[pcm, id_r], [zeros, meta]])", "np.block([[pcm, id_r], [meta, zeros]])") if False else ("id_r = np.identity(meta.shape[1])", "id_r = np.zeros((meta.shape[1], meta.shape[1]))")),
    b("logical-all", ("return bool(l_check.any())", "return bool(l_check.all())")),
    b("logical-mod", ("l_check = (logicals @ residual_err) % 2", "l_check = logicals @ residual_err")),
    b("logical-h", ("original_err[i] ^ decoded_estimate[i]", "original_err[i] & decoded_estimate[i]")),
    b("logical-h2", ("(rank_ht < rank_htr) is True", "(rank_ht <= rank_htr) is True")),
    r("where", ("return np.where(analog_syndrome <= 0.0, 1, 0).astype(np.int32)", "violated = analog_syndrome <= 0.0\n    return violated.astype(np.int32)")),
    r("rank", ("    residual_err: NDArray[np.int32] = np.zeros((n, 1), dtype=np.int32)\n    for i in range(n):\n        residual_err[i][0] = original_err[i] ^ decoded_estimate[i]\n\n    ht = np.transpose(check_matrix)\n\n    htr = np.append(ht, residual_err, axis=1)\n",
               "    residual = [original_err[i] ^ decoded_estimate[i] for i in range(n)]\n    htr = np.vstack((check_matrix, residual))\n")),
    r("draw", ("        if rand < p:\n            error[i] = 1\n", "        error[i] = int(rand < p)\n")),
    r("noise", ("    return np.array(np.random.normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)", "    return np.asarray(sgns + sigma * np.random.standard_normal(perfect_syndr.shape))")),
    r("order", ("        if rand < channel_probs_z[i]:", "        p_z = channel_probs_z[i]\n        if p_z > rand:"), ("            error_z[i] = (residual_err_z[i] + 1) % 2\n        elif (  # if p", "            error_z[i] = 1 - residual_err_z[i]\n        elif (  # if p")),
    r("inverse", ("return float(1 / np.sqrt(2) / (erfcinv(2 * ser)))", "return float(1.0 / (np.sqrt(2) * erfcinv(2 * ser)))")),
    r("signed", ("""    return np.where(
        binary_syndrome == 0,
        np.full(shape=binary_syndrome.shape, fill_value=1),
        np.full(shape=binary_syndrome.shape, fill_value=-1),
    )""", "    return 1 - 2 * binary_syndrome")),
    r("channel", ("""        px, py, pz = (
            error_rate * xyz_error_bias / np.sum(xyz_error_bias)
        )""", """        weights = xyz_error_bias / xyz_error_bias.sum()
        px, py, pz = error_rate * weights[0], error_rate * weights[1], error_rate * weights[2]
        del weights
        """)),
]
b, r = mk(14, T)
CASES += [
    b("graph", ("return np.hstack((pcm, np.identity(pcm.shape[0], dtype=np.int32)))", "return np.hstack((np.identity(pcm.shape[0], dtype=np.int32), pcm))")),
    b("stale", ("        self._set_analog_syndrome(analog_syndrome)\n        return", "        if self.bposd_decoder.channel_probs[-1] == 0.0:\n            self._set_analog_syndrome(analog_syndrome)\n        return")),
    b("late", ("        self._set_analog_syndrome(analog_syndrome)\n        return self.bposd_decoder.decode(simulation_utils.get_binary_from_analog(analog_syndrome))", "        out = self.bposd_decoder.decode(simulation_utils.get_binary_from_analog(analog_syndrome))\n        self._set_analog_syndrome(analog_syndrome)\n        return out")),
    b("slice", ("self.bposd_decoder.channel_probs[: self.n],", "self.bposd_decoder.channel_probs[: self.m],")),
    b("hard", ("self.bposd_decoder.decode(simulation_utils.get_binary_from_analog(analog_syndrome))", "self.bposd_decoder.decode(analog_syndrome)")),
    b("ser-ignored", ("            self.sigma = simulation_utils.get_sigma_from_syndr_er(self.syndr_err_rate)", "            self.sigma = self.syndr_err_rate")),
    b("both", ("        elif self.syndr_err_rate is not None:\n            msg = \"Only one of sigma or ser must be specified\"\n            raise ValueError(msg)\n", "")),
    b("sim-both", ("            if syndr_err_rate is not None:\n                msg = \"Only one of sigma or ser must be specified\"\n                raise ValueError(msg)\n", "")),
    b("swap-sigma", ("sigma=self.z_sigma,\n            bp_params", "sigma=self.x_sigma,\n            bp_params")),
    b("swap-synd", ("z_synd_err_rate = synd_err_channel[2][0]", "z_synd_err_rate = synd_err_channel[0][0]")),
    b("swap-chan", ("error_channel=self.full_error_channel[2] +", "error_channel=self.full_error_channel[0] +")),
    b("swap-pcm", ("pcm=self.Hz,", "pcm=self.Hx,")),
    b("swap-log", ("is_logical_err(self.Lz, x_residual)", "is_logical_err(self.Lx, x_residual)")),
    b("swap-noise", ("get_noisy_analog_syndrome(sigma=self.z_sigma,", "get_noisy_analog_syndrome(sigma=self.x_sigma,")),
    b("no-not", ("return not simulation_utils.is_logical_err(self.Lz, x_residual), not", "return simulation_utils.is_logical_err(self.Lz, x_residual), not")),
    b("iter", ("self.z_bp_iterations += self.z_decoder", "self.z_bp_iterations += self.x_decoder")),
    b("iter-set", ("self.x_bp_iterations += self.x", "self.x_bp_iterations = self.x")),
    b("residual", ("z_residual = (z_err + z_decoding) % 2", "z_residual = z_decoding % 2")),
    b("rate-dup", ("self.syndr_err_rate = simulation_utils.get_error_rate_from_sigma(sigma)", "self.syndr_err_rate = sigma")),
    r("inline", ("        self._set_analog_syndrome(analog_syndrome)\n        return", "        values = simulation_utils.get_virtual_check_init_vals(analog_syndrome, self.sigma)\n        self.bposd_decoder.update_channel_probs(np.concatenate((self.error_channel, values)))\n        return")),
    r("xor", ("x_residual = (x_err + x_decoding) % 2", "x_residual = x_err ^ x_decoding")),
    r("helper", ("        x_residual = (x_err + x_decoding) % 2\n", "        def residual(a, b):\n            return (a + b) % 2\n\n        x_residual = residual(x_err, x_decoding)\n")),
    r("graph", ("return np.hstack((pcm, np.identity(pcm.shape[0], dtype=np.int32)))", "m = pcm.shape[0]\n    return np.concatenate([pcm, np.eye(m, dtype=np.int32)], axis=1)")),
]
b, r = mk(15, S)
CASES += [
    b("x-chan", ("        # x+y\n", "        # x+y\n") if False else ("self.x_syndr_error_channel = full_x_syndr_err_chnl[0] + full_x_syndr_err_chnl[1]", "self.x_syndr_error_channel = full_x_syndr_err_chnl[2] + full_x_syndr_err_chnl[1]")),
    b("sigma", ("self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])", "self.sigma_z = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])")),
    b("sizes", ("full_z_syndr_err_chnl = error_channel_setup(self.syndr_err_rate, self.bias, self.Hx.shape[0])", "full_z_syndr_err_chnl = error_channel_setup(self.syndr_err_rate, self.bias, self.Hz.shape[0])")),
    b("residual-lost", ("                np.array((z_err + z_decoded) % 2, dtype=np.int32),\n            ]", "                np.array(z_decoded % 2, dtype=np.int32),\n            ]")),
    b("residual-swap", ("np.array((x_err + x_decoded) % 2, dtype=np.int32),  # np", "np.array((x_err + z_decoded) % 2, dtype=np.int32),  # np")),
    b("rounds", ("for _round in range(self.sus_th_depth):", "for _round in range(1, self.sus_th_depth):")),
    b("final-decoder", ("        x_decoded = self.x_bpd.decode(x_syndrome)\n        z_decoded = self.z_bpd.decode(z_syndrome)", "        x_decoded = self.x_bpd.decode(x_syndrome)\n        z_decoded = self.x_bpd.decode(z_syndrome)")),
    b("logical-swap", ("is_logical_err(self.lz, x_residual_err)", "is_logical_err(self.lx, x_residual_err)")),
    b("meta-syn", ("        meta_syndr = (meta_pcm @ bin_syndr) % 2\n        ss_syndr", "        meta_syndr = meta_pcm @ bin_syndr\n        ss_syndr")),
    b("meta-swap", ("                syndrome_w_err=z_syndrome_w_err,\n                meta_pcm=self.Mx,\n                m_bp=self.mz_bp,", "                syndrome_w_err=z_syndrome_w_err,\n                meta_pcm=self.Mx,\n                m_bp=self.mx_bp,")),
    b("repair-skip", ("        syndrome_w_err_binary += meta_decoded  # repair syndrome\n", "")),
    b("repair-mod", ("        syndrome_w_err_binary %= 2\n", "")),
    b("stack-order", ("        ss_syndr = np.hstack((bin_syndr, meta_syndr))", "        ss_syndr = np.hstack((meta_syndr, bin_syndr))")),
    b("stale", ("        decoder.update_channel_probs(np.hstack((bit_err_channel, analog_channel)))\n        # only first n bit are data so only return those", "        # only first n bit are data so only return those")),
    b("no-cut", ("        return decoder.decode(hard_syndrome)[: self.n]", "        return decoder.decode(hard_syndrome)")),
    b("mz-channel", ("            self.mz_bp = self.get_decoder(\n                pcm=self.Mx,\n                channel_probs=self.z_syndr_error_channel,", "            self.mz_bp = self.get_decoder(\n                pcm=self.Mx,\n                channel_probs=self.x_syndr_error_channel,")),
    b("ss-build", ("self.ss_x_pcm = build_single_stage_pcm(self.Hx, self.Mx)", "self.ss_x_pcm = build_single_stage_pcm(self.Hx, self.Mz)")),
    b("meta-flag", ("        if self.x_meta and self.Mx is not None:\n            z_decoded, self.z_bp_iters = self._decode_ss_with_meta(", "        if self.z_meta and self.Mx is not None:\n            z_decoded, self.z_bp_iters = self._decode_ss_with_meta(")),
    b("both-analog", ("        if self.analog_tg is True and self.analog_info is True:", "        if self.analog_tg is True and self.analog_info is None:")),
    b("apcm-swap", ("self.x_apcm, self.z_apcm = self.construct_analog_pcms()", "self.z_apcm, self.x_apcm = self.construct_analog_pcms()")),
    b("shared-noise", ("                z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)", "                z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_x)") if False else ("z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)", "z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_x)")),
    b("undef-sigma", ("        else:\n            self.sigma_x = 0.0\n            self.sigma_z = 0.0\n", "")),
    b("channel-swap-two", ("bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,\n                sigma=self.sigma_x", "bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,\n                sigma=self.sigma_x")),
    r("loop", ("for _round in range(self.sus_th_depth):", "left = self.sus_th_depth\n        while left > 0:\n            left -= 1")),
    r("order", ("        x_decoded = self.x_bpd.decode(x_syndrome)\n        z_decoded = self.z_bpd.decode(z_syndrome)", "        z_decoded = self.z_bpd.decode(z_syndrome)\n        x_decoded = self.x_bpd.decode(x_syndrome)")),
    r("repair", ("        syndrome_w_err_binary += meta_decoded  # repair syndrome\n        syndrome_w_err_binary %= 2\n\n        return syndrome_w_err_binary", "        return (syndrome_w_err_binary + meta_decoded) % 2")),
    r("names", ("        analog_channel = get_virtual_check_init_vals(analog_syndrome, sigma)\n        decoder.update_channel_probs(np.hstack((bit_err_channel, analog_channel)))\n        # only first n bit are data so only return those", "        channel = np.concatenate([bit_err_channel, get_virtual_check_init_vals(analog_syndrome, sigma)])\n        decoder.update_channel_probs(channel)")),
]
b, r = mk(16, M)
CASES += [
    b("pcm-blocks", ("block_diag([pcm] * (repetitions + 1), format=matrix_format)", "block_diag([pcm] * repetitions, format=matrix_format)")),
    b("stair", ("k=-pcm_rows, format", "k=pcm_rows, format")),
    b("stair-k", ("k=-pcm_rows, format", "k=-1, format")),
    b("move", ("new_syndrome[:, :region_size] = syndrome[:, region_size:]", "new_syndrome[:, region_size:] = syndrome[:, :region_size]")),
    b("diff-alias", ("diff_syndrome = syndrome.copy()", "diff_syndrome = syndrome")),
    b("diff-mod", ("(syndrome[:, 1:] - syndrome[:, :-1]) % 2", "(syndrome[:, 1:] - syndrome[:, :-1])")),
    b("order-c", ("decoder.decode(diff_syndrome.flatten(\"F\"))", "decoder.decode(diff_syndrome.flatten())")),
    b("analog-c", ("analog_syndr.flatten(\"F\")", "analog_syndr.flatten()")),
    b("perfect-analog", ("        if last_round:\n            new_channel[-pcm.shape[0] :] = 1e-15\n", "")),
    b("perfect-all", ("        new_channel = np.copy(channel_probs)\n        new_channel[-pcm.shape[0] :] = 1e-15", "        new_channel = np.copy(channel_probs)\n        new_channel[pcm.shape[0] :] = 1e-15")),
    b("alias-channel", ("new_channel = np.copy(channel_probs)", "new_channel = channel_probs")),
    b("commit", ("(np.cumsum(space_correction, 1) % 2)[:, region_size - 1]", "(np.cumsum(space_correction, 1) % 2)[:, region_size]")),
    b("commit-one", ("decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]", "decoded = space_correction[:, region_size - 1]")),
    b("last-commit", ("decoded = (np.cumsum(space_correction, 1) % 2)[:, -1]", "decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]")),
    b("time-shift", ("time_correction[:, region_size - 1]) % 2", "time_correction[:, region_size]) % 2")),
    b("no-propagate", ("(syndrome[:, region_size:] + corr_syndrome[:, None])", "(syndrome[:, region_size:])")),
    b("propagate-first", ("syndrome[:, region_size:] = ((syndrome[:, region_size:] + corr_syndrome[:, None]) % 2)", "syndrome[:, region_size : region_size + 1] = ((syndrome[:, region_size : region_size + 1] + corr_syndrome[:, None]) % 2)")),
    b("restore", ("            decoder.update_channel_probs(channel_probs)\n", "            pass\n")),
    r("xor", ("diff_syndrome[:, 1:] = (syndrome[:, 1:] - syndrome[:, :-1]) % 2", "diff_syndrome[:, 1:] = (syndrome[:, 1:] + syndrome[:, :-1]) % 2")),
    r("name", ("    region_size = repetitions // 2  # assumes repetitions is even\n", "    region_size = int(repetitions / 2)\n")),
    r("commit", ("decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]", "decoded = np.sum(space_correction[:, :region_size], axis=1) % 2")),
]
b, r = mk(16, Q)
CASES += [
    b("idx", ("            self.err_idx = 0\n", "            self.err_idx = 1\n")),
    b("chan", ("self.data_err_channel = self.y_bit_chnl + self.z_bit_chnl", "self.data_err_channel = self.y_bit_chnl + self.x_bit_chnl")),
    b("synchan", ("1.0 * (self.x_syndr_err_chnl + self.y_syndr_err_chnl)", "1.0 * (self.z_syndr_err_chnl + self.y_syndr_err_chnl)")),
    b("reps", ("            self.repetitions - 1,\n        )", "            self.repetitions,\n        )")),
    b("tail", ("np.array(self.syndr_err_channel.tolist() * (self.repetitions))", "np.array(self.data_err_channel.tolist() * (self.repetitions))[: self.num_checks * self.repetitions]")),
    b("fresh", ("residual_err = [np.copy(err), np.copy(err)]", "residual_err = [np.zeros_like(err), np.zeros_like(err)]")),
    b("perfect", ("            if rnd != (self.rounds - 1):\n                if self.analog_tg:\n                    analog", "            if rnd != self.rounds:\n                if self.analog_tg:\n                    analog")),
    b("cnt", ("cnt = self.repetitions // 2  # reset", "cnt = self.repetitions // 2 - 1  # reset")),
    b("nomove", ("                    syndrome_mat = move_syndrome(syndrome_mat)\n", "")),
    b("amove", ("                    if self.analog_tg:\n                        analog_syndr_mat = move_syndrome(analog_syndr_mat, data_type=np.float64)\n", "")),
    b("last", ("                        last_round=True,", "                        last_round=False,")),
    b("nocorr", ("                    err = (err + corr) % 2\n                    syndrome_mat = move", "                    syndrome_mat = move")),
    b("odd", ("        if repetitions % 2 != 0:\n            msg = \"repetitions must be even\"\n            raise ValueError(msg)\n", ""), ("        if self.repetitions % 2 != 0:\n            msg = \"Repetitions must be even!\"\n            raise ValueError(msg)\n", "")),
    b("inv", ("int(not is_logical_err(self.L, err))", "int(is_logical_err(self.L, err))")),
    b("w", ("np.log((1 - channel_probs) / channel_probs)", "np.log(channel_probs / (1 - channel_probs))")),
    r("even", ("        if repetitions % 2 != 0:\n            msg = \"repetitions must be even\"\n            raise ValueError(msg)\n", "")),
    r("res", ("residual_err = [np.copy(err), np.copy(err)]", "residual_err = [err.copy() for _ in range(2)]")),
    r("last", ("            if rnd != (self.rounds - 1):\n                if self.analog_tg:\n                    analog", "            is_last = rnd == self.rounds - 1\n            if not is_last:\n                if self.analog_tg:\n                    analog")),
]
