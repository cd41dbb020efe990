from cases_analog import A, D, Q, S, T, U, mk

b, r = mk(17, D)
CASES = [
    b("rate", ("logical_err_rate = 1.0 - (success_cnt / runs)\n    logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)\n    word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_params", "logical_err_rate = success_cnt / runs\n    logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)\n    word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_params")),
    b("word", ("** (1 / code_params[\"k\"])\n", "** (code_params[\"k\"])\n")),
    b("word2", ("** (1 / code_k)\n", "** code_k\n")),
    b("n", ("1.0 - (1 - logical_err_rate) ** (1 / code_params[\"k\"])", "1.0 - (1 - logical_err_rate) ** (1 / code_params[\"n\"])")),
    b("ebruns", ("np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)", "np.sqrt((1 - logical_err_rate) * logical_err_rate) / runs")),
    b("ebk", ("/ code_params[\"k\"]\n    )", "\n    )")),
    b("conv-one", ("    z_cond = _check_convergence(z_success,", "    z_cond = _check_convergence(x_success,")),
    b("conv-any", ("return x_cond == z_cond is True", "return x_cond is True or z_cond is True")),
    b("conv-same", ("return x_cond == z_cond is True", "return x_cond == z_cond")),
    b("conv-abs", ("if ler_eb / ler < precision_cutoff:", "if ler_eb < precision_cutoff:")),
    b("conv-zero", ("            return True\n        return None\n    return False", "            return True\n        return None\n    return True")),
    b("inf", ("if np.isinf(item):", "if not np.isinf(item):")),
    b("inf-drop", ("        else:\n            new_lst.append(item)\n    return new_lst", "    return new_lst")),
    r("rate", ("    logical_err_rate = 1.0 - (success_cnt / runs)\n    logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)\n    word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_params", "    logical_err_rate = (runs - success_cnt) / runs\n    logical_err_rate_eb = np.sqrt(logical_err_rate / runs * (success_cnt / runs))\n    word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_params")),
    r("eb", ("((1 - logical_err_rate_eb) ** (1 / code_params", "((1 - logical_err_rate) ** (1 / code_params")),
    r("conv", ("return x_cond == z_cond is True", "return bool(x_cond) and bool(z_cond)")),
    r("same", ("    logical_err_rate = 1.0 - (success_cnt / runs)\n    logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)\n    word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_k)\n    word_error_rate_eb = logical_err_rate_eb * ((1 - logical_err_rate_eb) ** (1 / code_k - 1)) / code_k\n    return (\n        logical_err_rate,\n        logical_err_rate_eb,\n        word_error_rate,\n        word_error_rate_eb,\n    )", "    return calculate_error_rates(success_cnt, runs, {\"k\": code_k})")),
    r("inf", ("    new_lst = []\n    for item in lst:\n        if np.isinf(item):\n            new_lst.append(\"i\")\n        else:\n            new_lst.append(item)\n    return new_lst", "    return [\"i\" if np.isinf(item) else item for item in lst]")),
]
b, r = mk(17, T)
CASES += [
    b("atd-cnt", ("x_success_cnt += int(out[0])", "x_success_cnt += int(out[1])")),
    b("atd-not", ("z_success_cnt += int(out[1])", "z_success_cnt += int(not out[1])")),
    b("atd-save", ("                self.save_results(x_success_cnt, z_success_cnt, runs)\n\n", "                self.save_results(z_success_cnt, x_success_cnt, runs)\n\n")),
    b("atd-final", ("        self.save_results(x_success_cnt, z_success_cnt, runs)  # save final results\n", "")),
    b("atd-final2", ("self.save_results(x_success_cnt, z_success_cnt, runs)  # save", "self.save_results(x_success_cnt, z_success_cnt, samples)  # save")),
    b("atd-samples", ("            \"nr_runs\": runs,\n            \"pers\": self.data_err_rate,\n            \"x_sigma\": self.x_sigma,\n            \"z_sigma\": self.z_sigma,\n            \"x_ler\": x_ler,", "            \"nr_runs\": self.save_interval,\n            \"pers\": self.data_err_rate,\n            \"x_sigma\": self.x_sigma,\n            \"z_sigma\": self.z_sigma,\n            \"x_ler\": x_ler,")),
    b("atd-range", ("for runs in range(1, samples + 1):", "for runs in range(1, samples):")),
    b("atd-stop", ("print(\"Result has converged.\")  # noqa: T201\n                    break\n", "print(\"Result has converged.\")  # noqa: T201\n                break\n")),
    b("atd-conv", ("                    x_success_cnt,\n                    z_success_cnt,\n                    runs,\n                    self.code_params,\n", "                    x_success_cnt,\n                    x_success_cnt,\n                    runs,\n                    self.code_params,\n")),
    b("atd-bias", ("output[\"bias\"] = replace_inf(output[\"bias\"])", "output[\"bias\"] = list(output[\"bias\"])")),
    b("atd-append", ("Path(self.outfile).open(mode=\"w\"", "Path(self.outfile).open(mode=\"a\"")),
    b("atd-its", ("\"z_bp_iterations\": self.z_bp_iterations / runs,", "\"z_bp_iterations\": self.x_bp_iterations / runs,")),
    r("atd-helper", ("            x_success_cnt += int(out[0])\n            z_success_cnt += int(out[1])\n", "            x_ok, z_ok = out\n            if x_ok:\n                x_success_cnt += 1\n            if z_ok:\n                z_success_cnt += 1\n")),
    r("atd-every", ("            if runs % self.save_interval == 1:\n", "            if runs % self.save_interval == 0:\n")),
    r("atd-dict", ("        output = {\n            \"code_K\": self.code_params[\"k\"],\n            \"code_N\": self.code_params[\"n\"],\n            \"nr_runs\": runs,", "        output = dict(self.input_values)\n        output |= {\n            \"code_K\": self.code_params[\"k\"],\n            \"code_N\": self.code_params[\"n\"],\n            \"nr_runs\": runs,")),
]
b, r = mk(17, S)
CASES += [
    b("ss-flag", ("            if not out[1]:\n                z_success_cnt += 1\n", "            if out[1]:\n                z_success_cnt += 1\n")),
    b("ss-its", ("            z_bp_iters += self.z_bp_iters\n", "            z_bp_iters = self.z_bp_iters\n")),
    b("ss-avg", ("\"avg_z_bp_iter\": z_bp_iters / runs,", "\"avg_z_bp_iter\": z_bp_iters,")),
    b("ss-read", ("Path(self.outfile).open(mode=\"w\"", "Path(self.outfile).open(mode=\"r\"")),
    b("ss-swap", ("        self.save_results(x_success_cnt, z_success_cnt, runs, x_bp_iters=x_bp_iters, z_bp_iters=z_bp_iters)\n        return output", "        self.save_results(z_success_cnt, x_success_cnt, runs, x_bp_iters=x_bp_iters, z_bp_iters=z_bp_iters)\n        return output")),
    b("ss-early", ("            if runs % self.save_interval == 0:", "            if runs > self.save_interval:\n                break\n            if runs % self.save_interval == 0:")),
    b("ss-reset", ("                if is_converged(\n", "                x_success_cnt = 0\n                if is_converged(\n")),
    r("ss-count", ("            if not out[0]:\n                x_success_cnt += 1\n            if not out[1]:\n                z_success_cnt += 1\n", "            x_failed, z_failed = out[0], out[1]\n            x_success_cnt += 0 if x_failed else 1\n            z_success_cnt += int(not z_failed)\n")),
    r("ss-dump", ("            f.write(\n                json.dumps(\n                    output,\n                    ensure_ascii=False,\n                    indent=4,\n                    default=lambda o: o.__dict__,\n                )\n            )", "            json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)")),
    r("ss-while", ("        for runs in range(1, samples + 1):\n            out = self._single_sample()", "        runs = 0\n        while runs < samples:\n            runs += 1\n            out = self._single_sample()")),
    r("ss-fields", ("        self.input_values = self.__dict__.copy()", "        self.input_values = dict(vars(self))")),
]
b, r = mk(17, Q)
CASES += [
    b("q-side", ("err_side=\"z\" if self.check_side == \"X\" else \"x\"", "err_side=\"x\" if self.check_side == \"X\" else \"z\"")),
    b("q-runs", ("return self._save_results(success_cnt, run)", "return self._save_results(success_cnt, samples)")),
    b("q-last", ("            success_cnt += self._single_sample()\n", "            success_cnt = self._single_sample()\n")),
    b("q-conv", ("if _check_convergence(success_cnt, run,", "if _check_convergence(success_cnt, samples,")),
    r("q-x", ("                    print(\"Converged\")  # noqa: T201\n                    break\n        return self._save_results(success_cnt, run)", "                    print(\"Converged\")  # noqa: T201\n                    return self._save_results(success_cnt, run)\n        return self._save_results(success_cnt, run)")),
]
b, r = mk(17, U)
CASES += [
    b("u-iter", ("bp_iterations / nr_runs if bp", "bp_iterations if bp")),
    b("u-ler", ("f\"{err_side}_ler\": ler,", "f\"{err_side}_ler\": wer,")),
    b("u-k", ("\"code_K\": code_params[\"k\"],\n        \"code_N\": code_params[\"n\"],\n        \"nr_runs\": nr_runs", "\"code_K\": code_params[\"n\"],\n        \"code_N\": code_params[\"k\"],\n        \"nr_runs\": nr_runs")),
    b("u-over", ("    output.update(input_vals)\n    output[\"bias\"] = replace_inf(output[\"bias\"])\n", "    output.update(input_vals)\n    output[\"bias\"] = replace_inf(output[\"bias\"])\n    output[\"nr_runs\"] += 1\n")),
]
b, r = mk(19, D)
CASES += [
    b("first", ("    for data in datasets[1:]:\n", "    for data in datasets:\n")),
    b("runs", ("        merged_data[\"nr_runs\"] += data.get(\"nr_runs\", 0)\n        merged_data[\"x_success_cnt\"] += data.get(\"x_success_cnt\", 0)\n        merged_data[\"z_s", "        merged_data[\"x_success_cnt\"] += data.get(\"x_success_cnt\", 0)\n        merged_data[\"z_s")),
    b("n", ("_update_error_rates(x_success_cnt, runs, merged_data[\"code_K\"])\n    z_ler", "_update_error_rates(x_success_cnt, runs, merged_data[\"code_N\"])\n    z_ler")),
    b("zrates", ("    z_ler, z_ler_eb, z_wer, z_wer_eb = _update_error_rates(z_success_cnt, runs, merged_data[\"code_K\"])\n\n    update_dict = {\n        \"x", "    z_ler, z_ler_eb, z_wer, z_wer_eb = _update_error_rates(x_success_cnt, runs, merged_data[\"code_K\"])\n\n    update_dict = {\n        \"x")),
    b("filter", ("datasets = [data for data in _datasets if \"x_success_cnt\" in data]", "datasets = list(_datasets)")),
    b("pop", ("            merged_data = dict(datasets.pop(i))\n            break", "            merged_data = dict(datasets[i])\n            break")),
    b("alias", ("    xdata[\"x_runs\"] = xdata.pop(\"nr_runs\")\n        zdata[\"z_runs\"] = zdata.pop(\"nr_runs\")", "    xdata[\"x_runs\"] = xdata.pop(\"nr_runs\")\n        zdata[\"z_runs\"] = xdata[\"x_runs\"]")),
    b("onlyz", ("    if zdata:\n        zdata[\"z_runs\"] = zdata.pop(\"nr_runs\")\n        return zdata\n", "")),
    b("files", ("                    except JSONDecodeError:\n                        # don't care about json decode error here\n                        pass\n        merged_data = merge_datasets(data)", "                    except KeyError:\n                        # don't care about json decode error here\n                        pass\n        merged_data = merge_datasets(data)")),
    b("stop", ("            if filename.suffix == \".json\":", "            if filename.suffix != \".json\":\n                break\n            if filename.suffix == \".json\":")),
    b("keep", ("        data: list[dict[str, Any]] = []\n        for filename in folder_path.iterdir():\n            if filename.suffix == \".json\":\n                with filename.open() as file:\n                    try:\n                        json_data = json.load(file)\n                        data.append(json_data)\n                    except JSONDecodeError:\n                        # don't care about json decode error here\n                        pass\n        merged_data = merge_datasets(data)", "        for filename in folder_path.iterdir():\n            if filename.suffix == \".json\":\n                with filename.open() as file:\n                    try:\n                        json_data = json.load(file)\n                        data.append(json_data)\n                    except JSONDecodeError:\n                        # don't care about json decode error here\n                        pass\n        merged_data = merge_datasets(data)"), ("    output_data: list[dict[str, Any]] = []\n", "    output_data: list[dict[str, Any]] = []\n    data: list[dict[str, Any]] = []\n")),
    b("relative", ("parent_dir = (Path(input_path) / os.pardir).resolve()", "parent_dir = Path(\"/\") / Path(input_path).parent")),
    b("where", ("parent_dir = (Path(input_path) / os.pardir).resolve()", "parent_dir = Path(input_path).resolve()")),
    b("empty", ("        if merged_data:\n            output_data.append(merged_data)", "        output_data.append(merged_data)")),
    b("bias", ("/bias={bias[0]}_{bias[1]}_{bias[2]}/", "/bias={bias[0]}_{bias[1]}/")),
    b("meta", ("    if z_meta:\n", "    if x_meta:\n")),
    b("code", ("    path += f\"{codename:s}/\"\n", "")),
    b("rate", ("path += f\"per_{kwargs['data_err_rate']:.3e}_ser_{kwargs['syndr_err_rate']:.3e}/\"", "path += f\"per_{kwargs['data_err_rate']:.3f}_ser_{kwargs['syndr_err_rate']:.3f}/\"")),
    b("exists", ("    while Path(f_loc).exists():", "    if Path(f_loc).exists():")),
    b("touch", ("    Path(f_loc).touch()\n", "")),
    b("order", ("    for file in input_filenames:\n", "    for file in sorted(input_filenames):\n")),
    b("dups", ("                if value not in keyword_lists[keyword]:\n                    keyword_lists[keyword].append(value)", "                keyword_lists[keyword].append(value)")),
    r("sum", ("    for data in datasets[1:]:\n        merged_data[\"nr_runs\"] += data.get(\"nr_runs\", 0)\n        merged_data[\"x_success_cnt\"] += data.get(\"x_success_cnt\", 0)\n        merged_data[\"z_success_cnt\"] += data.get(\"z_success_cnt\", 0)\n", "    for key in (\"nr_runs\", \"x_success_cnt\", \"z_success_cnt\"):\n        merged_data[key] = sum(data.get(key, 0) for data in datasets)\n")),
    r("pop", ("    for i, data in enumerate(datasets):\n        if \"x_success_cnt\" in data:\n            merged_data = dict(datasets.pop(i))\n            break\n", "    merged_data = dict(datasets[0])\n    datasets = datasets[1:]\n")),
    r("glob", ("        for filename in folder_path.iterdir():\n            if filename.suffix == \".json\":\n                with filename.open() as file:\n                    try:\n                        json_data = json.load(file)\n                        data.append(json_data)\n                    except JSONDecodeError:\n                        # don't care about json decode error here\n                        pass\n        merged_data = merge_datasets(data)", "        for filename in sorted(folder_path.glob(\"*.json\")):\n            try:\n                data.append(json.loads(filename.read_text()))\n            except ValueError:\n                continue\n        merged_data = merge_datasets(data)")),
    r("parent", ("parent_dir = (Path(input_path) / os.pardir).resolve()\n    with (parent_dir / f\"{code_name:s}.json\").open(\"w\") as output_file:\n        json.dump(output_data, output_file, ensure_ascii=False, indent=4)", "target = Path(input_path).resolve().parent / (code_name + \".json\")\n    target.write_text(json.dumps(output_data, ensure_ascii=False, indent=4))")),
    r("path", ("    f_loc = path + f\"id_{identifier}.json\"\n    while Path(f_loc).exists():\n        identifier += 1\n        f_loc = path + f\"id_{identifier}.json\"\n", "    while Path(f\"{path}id_{identifier}.json\").exists():\n        identifier += 1\n    f_loc = f\"{path}id_{identifier}.json\"\n")),
    r("product", ("    keys = kwargs.keys()\n    vals = kwargs.values()\n    for instance in itertools.product(*vals):\n        yield dict(zip(keys, instance))", "    for instance in itertools.product(*kwargs.values()):\n        yield {key: value for key, value in zip(kwargs, instance)}")),
]
b, r = mk(18, U)
CASES += [
    b("rng", ("        rand = np.random.random()  # noqa: NPY002  # this", "        rand = np.random.default_rng().random()  # this")),
    b("rng2", ("        rand = np.random.random()  # noqa: NPY002\n", "        rand = np.random.default_rng(0).random()\n")),
    b("normal", ("np.random.normal(loc", "np.random.RandomState().normal(loc")),
    b("std", ("        rand = np.random.random()  # noqa: NPY002\n", "        import random\n\n        rand = random.random()\n")),
    b("noseed", ("    np.random.seed(value)  # noqa: NPY002", "    np.random.seed()  # noqa: NPY002")),
    b("fixed", ("    np.random.seed(value)  # noqa: NPY002", "    np.random.seed(42)  # noqa: NPY002")),
    r("rand", ("        rand = np.random.random()  # noqa: NPY002\n", "        rand = np.random.rand()  # noqa: NPY002\n")),
    r("int", ("    np.random.seed(value)  # noqa: NPY002", "    np.random.seed(int(value))  # noqa: NPY002")),
]
b, r = mk(18, S)
CASES += [b("noset", ("        set_seed(seed)\n", "")), b("late", ("        set_seed(seed)\n        self.codename", "        self.codename"), ("    def run(self, samples: int) -> dict[str, Any]:\n", "    def run(self, samples: int) -> dict[str, Any]:\n        set_seed(self.seed)\n")),
          b("again", ("        set_seed(seed)\n        self.codename", "        self.codename"), ("        residual_err: list[NDArray[np.int32]] = [", "        set_seed(self.seed)\n        residual_err: list[NDArray[np.int32]] = ["))]
b, r = mk(18, T)
CASES += [b("noset", ("        simulation_utils.set_seed(seed)\n", "")), r("moved", ("        simulation_utils.set_seed(seed)\n        self.Hx = hx\n", "        self.Hx = hx\n        simulation_utils.set_seed(seed)\n"))]
b, r = mk(18, Q)
CASES += [b("noset", ("        set_seed(seed)\n", "")), b("cond", ("        set_seed(seed)\n", "        if analog_tg:\n            set_seed(seed)\n"))]
