"""adv.py [SRC] [FILTER...]: small planted changes, one property each; runs only that property's check on a scratch copy.
Not a check: a development tool to find blind spots. SRC is the tree to copy (default /repo)."""
import os, shutil, subprocess, sys, tempfile
B, C, U, I, T, M, A = ("paconvert/base.py", "paconvert/converter.py", "paconvert/utils.py", "paconvert/transformer/import_transformer.py",
                       "paconvert/transformer/basic_transformer.py", "paconvert/main.py", "paconvert/api_matcher.py")
L = [
 ("C01", "black_err", C, '"Skip black format due to error: {}".format(str(e)),\n                    )\n', '"Skip black format due to error: {}".format(str(e)),\n                    )\n                    with open(old_path + ".err", "w") as f:\n                        f.write(str(e))\n'),
 ("C01", "isort_err", C, '"Skip isort format due to error: {}".format(str(e)),\n                    )\n\n', '"Skip isort format due to error: {}".format(str(e)),\n                    )\n                    open("isort.err", "w").close()\n\n'),
 ("C01", "copy_meta", C, "            shutil.copyfile(old_path, new_path)\n", "            os.chmod(old_path, 0o644)\n            shutil.copyfile(old_path, new_path)\n"),
 ("C01", "copy_link", C, "            shutil.copyfile(old_path, new_path)\n", "            if os.path.exists(new_path):\n                os.remove(new_path)\n            os.symlink(old_path, new_path)\n"),
 ("C01", "req_inplace", C, '            with open(new_path, "w", encoding="UTF-8") as new_file:\n                new_file.write(code)\n', '            with open(new_path, "w", encoding="UTF-8") as new_file:\n                new_file.write(code)\n            if not code.strip():\n                os.remove(old_path)\n'),
 ("C01", "mkdir_in", C, "                    if not os.path.exists(new_path):\n                        os.makedirs(new_path)\n", "                    if not os.listdir(old_path):\n                        os.makedirs(os.path.join(old_path, '.keep'), exist_ok=True)\n                    if not os.path.exists(new_path):\n                        os.makedirs(new_path)\n"),
 ("C01", "outnone", C, 'out_dir = os.getcwd() + "/paddle_project"', 'out_dir = in_dir + "/paddle_project"'),
 ("C01", "tmpwrite", C, '            with open(new_path, "w", encoding="UTF-8") as file:\n                file.write(code)\n', '            tmp = old_path + ".tmp"\n            with open(tmp, "w", encoding="UTF-8") as file:\n                file.write(code)\n            shutil.move(tmp, new_path)\n'),
 ("C02", "req_in", C, 'old_path.endswith("requirements.txt")', '"requirements" in os.path.basename(old_path)'),
 ("C02", "excl_plain", C, "                        if re.search(pattern, old_path):\n                            is_exclude", "                        if pattern in old_path:\n                            is_exclude"),
 ("C02", "excl_base", C, "                        if re.search(pattern, old_path):\n                            is_exclude", "                        if re.search(pattern, item):\n                            is_exclude"),
 ("C02", "excl_last", C, "                            is_exclude = True\n", "                            is_exclude = True\n                        else:\n                            is_exclude = False\n"),
 ("C02", "copy_text", C, "            shutil.copyfile(old_path, new_path)\n", "            try:\n                with open(old_path, 'r', encoding='UTF-8') as f, open(new_path, 'w', encoding='UTF-8') as g:\n                    g.write(f.read())\n            except UnicodeDecodeError:\n                shutil.copyfile(old_path, new_path)\n"),
 ("C02", "pyi", C, 'if old_path.endswith(".py"):', 'if old_path.endswith((".py", ".pyi")):'),
 ("C02", "req_once", C, 'code.replace("torch", "paddlepaddle-gpu")', 'code.replace("torch", "paddlepaddle-gpu", 1)'),
 ("C02", "excl_split", C, 'exclude.split(",")', 'exclude.split(", ")'),
 ("C02", "dirskip", C, "                    if not os.path.exists(new_path):\n                        os.makedirs(new_path)\n", "                    if os.path.basename(new_path) == 'build':\n                        continue\n                    if not os.path.exists(new_path):\n                        os.makedirs(new_path)\n"),
 ("C02", "pycache", C, '        exclude.append("__pycache__")', '        exclude.append("cache")'),
 ("C02", "file_excl", C, "                    if re.search(pattern, old_path):\n                        return", "                    if re.match(pattern, old_path):\n                        return"),
 ("C02", "symlink", C, "                # the output project", "                if os.path.islink(old_path):\n                    continue\n                # the output project"),
 ("C03", "paren", U, "continued_by_paren = saw_paren and paren_depth > 0", "continued_by_paren = saw_paren and paren_depth > 1"),
 ("C03", "backslash", U, '                while i < n and lines[i - 1].rstrip().endswith("\\\\"):', '                while False:'),
 ("C03", "from_only", U, 'if stripped.startswith("import "):', 'if stripped.startswith("import p"):'),
 ("C03", "scope_except", B, "                        except:\n", "                        except IndexError:\n"),
 ("C03", "assert", T, "                            ast.Assert,\n                            ast.Subscript,", "                            ast.Subscript,\n                            ast.Starred,"),
 ("C03", "del_any", T, '                    if isinstance(self.parent_node, ast.Expr):\n                        self.success_api_count += 1\n                        log_info(\n                            self.logger,\n                            "[[Delete]]', '                    if isinstance(self.parent_node, (ast.Expr, ast.Assign)):\n                        self.success_api_count += 1\n                        log_info(\n                            self.logger,\n                            "[[Delete]]'),
 ("C04", "neg", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w\.\-])%s\s*\."'),
 ("C04", "deco", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w\.@])%s\s*\."'),
 ("C04", "brack", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w\.\[])%s\s*\."'),
 ("C04", "ws", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w\.])%s\."'),
 ("C04", "brace", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w\.\{])%s\s*\."'),
 ("C04", "onlyfirst", C, 'for torch_package in self.imports_map[file]["torch_packages"]:', 'for torch_package in sorted(self.imports_map[file]["torch_packages"])[:1]:'),
 ("C04", "nextline", C, "elif mark_next_line and line.strip():", "elif mark_next_line and line.strip() and not line.strip().startswith('@'):"),
 ("C04", "noteattr", T, '        self.record_scope(self.scope_body_index(), annotate_node)\n        self.unsupport_api_map[torch_api] += 1\n        log_info(\n            self.logger,\n            "[Not Support] convert Class Attribute', '        if not isinstance(self.parent_node, ast.Attribute):\n            self.record_scope(self.scope_body_index(), annotate_node)\n        self.unsupport_api_map[torch_api] += 1\n        log_info(\n            self.logger,\n            "[Not Support] convert Class Attribute'),
 ("C05", "dot", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w])%s\s*\."'),
 ("C05", "word", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![\w\.])%s\b"'),
 ("C05", "pre", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![a-z\.])%s\s*\."'),
 ("C05", "under", C, r'r"(?<![\w\.])%s\s*\."', r'r"(?<![^\W_]|\.)%s\s*\."'),
 ("C05", "note", C, "elif mark_next_line and line.strip():", "elif mark_next_line:"),
 ("C06", "delcount", T, '                    elif (\n                        isinstance(self.parent_node, ast.FunctionDef)\n                        and node in self.parent_node.decorator_list\n                    ):\n                        self.parent_node.decorator_list.remove(node)\n                        self.success_api_count += 1\n', '                    elif (\n                        isinstance(self.parent_node, ast.FunctionDef)\n                        and node in self.parent_node.decorator_list\n                    ):\n                        self.parent_node.decorator_list.remove(node)\n'),
 ("C06", "setattr", T, '                    new_node = ast.parse(paddle_api + "." + attr_list[-1]).body[0].value\n                    self.success_api_count += 1\n', '                    new_node = ast.parse(paddle_api + "." + attr_list[-1]).body[0].value\n'),
 ("C06", "unch", T, '            elif node_list == "unchange":\n                self.success_api_count += 1\n                log_info(\n                    self.logger,\n                    "[Success] Convert Class Attribute', '            elif node_list == "unchange":\n                log_info(\n                    self.logger,\n                    "[Success] Convert Class Attribute'),
 ("C06", "unsup_key", T, '        torch_api = "*" + torch_api[torch_api.rfind(".") :]\n', '        torch_api = torch_api[torch_api.rfind(".") :]\n'),
 ("C06", "unsup_attr", T, '            self.unsupport_api_map[torch_api] += 1\n            log_info(\n                self.logger,\n                "[Not Support] Convert {}', '            self.unsupport_api_map[torch_api] = 1\n            log_info(\n                self.logger,\n                "[Not Support] Convert {}'),
 ("C06", "maylist", T, "if self.start_with_torch(full_attr) or self.in_api_mapping(full_attr):", "if self.start_with_torch(full_attr):"),
 ("C06", "rate", C, "self.convert_rate = self.success_api_count / self.torch_api_count\n            log_warning(\n                self.logger, \" Convert", "self.convert_rate = round(self.success_api_count / self.torch_api_count, 2)\n            log_warning(\n                self.logger, \" Convert"),
 ("C06", "percent", C, '" Convert Rate is: {:.2%}"', '" Convert Rate is: {:.0%}"'),
 ("C07", "paddle", B, 'if "paddle" == node.id:', 'if "paddle" == node.id and False:'),
 ("C07", "self2", T, "                    # self.load_state_dict\n                    is_module_api = True", "                    # self.load_state_dict\n                    is_tensor_api = True\n                    is_module_api = True"),
 ("C07", "long", T, '                if "self." in full_attr:\n                    # can be owned by other class\n                    # self.weight.add', '                if "self." in full_attr or len(attr_list) > 4:\n                    # can be owned by other class\n                    # self.weight.add'),
 ("C07", "args", T, '            "args",\n', ''),
 ("C07", "selfin", T, '                if "self." in full_attr:\n                    # can be owned by other class\n                    # self.weight.add', '                if "self" in full_attr:\n                    # can be owned by other class\n                    # self.weight.add'),
 ("C07", "weight", T, '                    ".T." in full_attr\n', '                    ".T" in full_attr\n'),
 ("C07", "others", B, "        # others not torch, such as 'str'.split\n        else:\n", "        elif isinstance(node, (ast.List, ast.JoinedStr)):\n            return 'TorchClass'\n        else:\n"),
 ("C07", "selfattr", T, '                if "self." in full_attr:\n                    # can be inherit by users\n                    pass\n', '                if "self." in full_attr:\n                    # can be inherit by users\n                    is_tensor_api = True\n'),
 ("C08", "with", B, "    def visit_With(self, node):\n        self.scope_stack.append(node)\n        super(BaseTransformer, self).generic_visit(node)\n        self.scope_stack.pop()\n        return node", "    def visit_With(self, node):\n        super(BaseTransformer, self).generic_visit(node)\n        return node"),
 ("C08", "for", B, "    def visit_For(self, node):\n        self.scope_stack.append(node)\n        super(BaseTransformer, self).generic_visit(node)\n        self.scope_stack.pop()\n        return node", "    def visit_For(self, node):\n        super(BaseTransformer, self).generic_visit(node)\n        return node"),
 ("C08", "order", B, "for line in lines[::-1]:", "for line in lines:"),
 ("C08", "sort", B, "key=lambda x: x[0], reverse=True\n                )\n                for index", "key=lambda x: str(x[0]), reverse=True\n                )\n                for index"),
 ("C08", "dup", B, "                        if ast.dump(node) == ast.dump(ele):", "                        if type(node) == type(ele):"),
 ("C08", "parent", T, "        # should be handled by visit_Call\n        if isinstance(self.parent_node, ast.Call):\n            if node == self.parent_node.func:", "        # should be handled by visit_Call\n        if isinstance(self.parent_node, ast.Call):\n            if node == self.parent_node.func or node in self.parent_node.args[3:]:"),
 ("C09", "data", I, 'if node.id not in ["data"]:', 'if node.id not in ["data", "ops"]:'),
 ("C09", "setattr", I, '                    "setattr",\n', ''),
 ("C09", "super", I, '                    "super",\n', ''),
 ("C09", "asname", I, '                        self.imports_map[self.file][alias_node.asname] = ".".join(\n                            [node.module, alias_node.name]\n                        )', '                        self.imports_map[self.file][alias_node.asname] = ".".join(\n                            [node.module.split(".")[0], alias_node.name]\n                        )'),
 ("C09", "deep", I, "if node.module.startswith(f\"{pkg_name}.\") or pkg_name == node.module:\n                if pkg_name in GlobalManager.MAY", "if (node.module.startswith(f\"{pkg_name}.\") and node.module.count('.') < 4) or pkg_name == node.module:\n                if pkg_name in GlobalManager.MAY"),
 ("C09", "tuple", I, "            and isinstance(self.node_stack[-3], ast.Subscript)", "            and isinstance(self.node_stack[-3], ast.List)"),
 ("C10", "prefix", I, 'alias_node.name.startswith(f"{pkg_name}.")', 'alias_node.name.startswith(f"{pkg_name}")'),
 ("C10", "prefix2", I, 'if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:\n                if', 'if node.module.startswith(pkg_name):\n                if'),
 ("C10", "twice", I, "                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name], 1\n", "                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]\n"),
 ("C10", "local", I, 'if os.path.exists(import_path) or os.path.exists(import_path + ".py"):\n                self.insert_other_packages(self.imports_map, alias_node)', 'if os.path.exists(import_path + ".py"):\n                self.insert_other_packages(self.imports_map, alias_node)'),
 ("C10", "rel", I, "if node.level > 0:", "if node.level == 1:"),
 ("C10", "exclstrip", M, "package.strip()", "package"),
 ("C10", "asname_drop", I, "            self.insert_other_packages(self.imports_map, alias_node)\n            new_node_names.append(alias_node)\n\n        if", "            self.insert_other_packages(self.imports_map, alias_node)\n            new_node_names.append(ast.alias(alias_node.name.split('.')[0], alias_node.asname) if alias_node.name.endswith('.torch') else alias_node)\n\n        if"),
 ("C11", "default", B, "                if k not in kwargs:\n                    kwargs[k] = paddle_default_kwargs[k]", "                if kwargs.get(k) in (None, 'None'):\n                    kwargs[k] = paddle_default_kwargs[k]"),
 ("C11", "list", B, "                        for v in kwargs_change[k]:\n", "                        for v in kwargs_change[k][:1]:\n"),
 ("C11", "min", B, "if posion_args_num < min_input_args_num:", "if posion_args_num + 1 < min_input_args_num:"),
 ("C11", "unsup", B, "            # not support some API args\n            if k in unsupport_args:\n                return None\n            v = astor.to_source(node).strip", "            v = astor.to_source(node).strip"),
 ("C11", "empty", B, "                if kwargs_change[k]:\n", "                if kwargs_change[k] and kwargs[k] != 'None':\n"),
 ("C11", "false", B, "            v = astor.to_source(node.value).strip(\"\\n\")\n            # v = ast.unparse(node.value)\n", "            v = astor.to_source(node.value).strip(\"\\n\")\n            if v == 'False':\n                continue\n"),
 ("C14", "pop", B, "                    kwargs[k] = paddle_default_kwargs[k]", "                    kwargs[k] = paddle_default_kwargs.pop(k) if len(paddle_default_kwargs) > 3 else paddle_default_kwargs[k]"),
 ("C14", "unsupmut", B, 'unsupport_args = self.api_mapping_dict.get("unsupport_args") or []\n\n        # the', 'unsupport_args = self.api_mapping_dict.setdefault("unsupport_args", [])\n        if not isinstance(unsupport_args, list):\n            unsupport_args = []\n        if len(kwargs) > 2 and kwargs[0].arg == "out":\n            unsupport_args.append("out")\n\n        # the'),
 ("C14", "kwpop", B, '        kwargs_change = self.api_mapping_dict.get("kwargs_change", {})\n', '        kwargs_change = self.api_mapping_dict.get("kwargs_change", {})\n        for k in unuse_args:\n            kwargs_change[k] = ""\n'),
 ("C13", "enc", C, '            with open(new_path, "w", encoding="UTF-8") as file:', '            with open(new_path, "w") as file:'),
 ("C13", "encreq", C, '            with open(old_path, "r", encoding="UTF-8") as old_file:', '            with open(old_path, "r") as old_file:'),
 ("C13", "cwd", I, 'dir_name = os.path.dirname(self.file)\n            import_path = os.path.join(dir_name, node.module', 'dir_name = ""\n            import_path = os.path.join(dir_name, node.module'),
 ("C13", "lvl", C, "            if not self.only_complete:\n                code", "            if not self.only_complete and self.logger.level <= 20:\n                code"),
 ("C15", "newer", C, "            shutil.copyfile(old_path, new_path)\n", "            if not os.path.exists(new_path) or os.path.getmtime(new_path) < os.path.getmtime(old_path):\n                shutil.copyfile(old_path, new_path)\n"),
 ("C15", "skip", C, "            shutil.copyfile(old_path, new_path)\n", "            if not os.path.exists(new_path) or os.path.getsize(new_path) != os.path.getsize(old_path):\n                shutil.copyfile(old_path, new_path)\n"),
 ("C15", "reqread", C, '            with open(new_path, "w", encoding="UTF-8") as new_file:\n', '            with open(new_path, "r+" if os.path.exists(new_path) else "w", encoding="UTF-8") as new_file:\n'),
 ("C15", "utilsappend", U, '        with open(self.fileName, "w", encoding="UTF-8") as f:\n            f.write(new_content)', '        with open(self.fileName, "r+" if os.path.exists(self.fileName) else "w", encoding="UTF-8") as f:\n            f.write(new_content)'),
 ("C16", "paddle", B, 'if "paddle" == node.id:', 'if "paddle" == node.id and False:'),
 ("C17", "import", C, 'startswith(("import ", "from "))', 'startswith("import ")'),
 ("C17", "mask", C, r'(?![\w\.])", re.DOTALL)', r'(?![\w])", re.DOTALL)'),
 ("C17", "attr", B, '        if attr_mapping and "disable" not in attr_mapping:\n            return attr_mapping.get("Matcher") == "ChangePrefixMatcher"', '        if attr_mapping and "disable" not in attr_mapping:\n            return "Matcher" in attr_mapping'),
 ("C17", "ifrom", I, '                if self.mode == "min":\n                    return node\n', '                if self.mode == "min" and len(node.names) < 9:\n                    return node\n'),
 ("C18", "noutils", B, '        if self.api_mapping_dict.get("enable_utils_code"):\n            self.enable_utils_code()\n        return ret', '        if self.api_mapping_dict.get("enable_utils_code") and ret:\n            self.enable_utils_code()\n        return ret'),
 ("C18", "once", B, "            utils_file_helper.add_code(utils_code)\n", "            if not utils_file_helper.is_dir_mode or len(utils_file_helper.code_map) < 6:\n                utils_file_helper.add_code(utils_code)\n"),
 ("C18", "hash", U, "        while base_hash in self.code_map and self.code_map[base_hash] != code:", "        base_hash = hash(code.split('(')[0])\n        while False:"),
 ("C18", "syspath", B, 'elif "sys.path" in astor.to_source(node):', 'elif "sys.path.append(" in astor.to_source(node) and len(astor.to_source(node)) < 80:'),
 ("C20", "strip", B, '            v = astor.to_source(node).strip("\\n")\n            # v = ast.unparse(node)\n', '            v = astor.to_source(node).strip("\\n()") if isinstance(node, ast.BinOp) else astor.to_source(node).strip("\\n")\n'),
 ("C20", "rfind", B, 'func_str[0 : func_str.rfind(".")]', 'func_str.rsplit(".", func_str.count(")."))[0] if func_str.count(").") > 1 else func_str[0 : func_str.rfind(".")]'),
 ("C20", "replace", B, '            ele = astor.to_source(node).strip("\\n")\n            new_args.append(ele)', '            ele = " ".join(astor.to_source(node).split())\n            new_args.append(ele)'),
 ("C21", "excl", M, "converter.run(args.in_dir, args.out_dir, args.exclude)", "converter.run(args.in_dir, args.out_dir)"),
 ("C21", "min", M, 'if args.mode == "min" and not args.no_format:', 'if args.mode == "min" and not args.log_dir:'),
 ("C21", "unalign", C, 'if not k.startswith("torch.") or k in GlobalManager.CHANGE_PREFIX_API:', 'if not k.startswith("torch.") or k in GlobalManager.CHANGE_PREFIX_API or v["count"] > 9:'),
 ("C21", "unalign2", C, 'if not k.startswith("torch.") or', 'if not k.startswith("torch") or'),
 ("C21", "level", M, "                log_level=args.log_level,\n", "                log_level=args.log_level.lower(),\n"),
]


def main():
    src = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    flt = sys.argv[2:]
    n = {}
    for prop, name, f, old, new in L:
        if flt and not any(x in (prop, name, prop + "/" + name) for x in flt):
            continue
        d = tempfile.mkdtemp(prefix="adv_", dir="/dev/shm")
        try:
            r = os.path.join(d, "repo")
            shutil.copytree(src, r, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests"))
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                print(prop, name, "NO MATCH", flush=True)
                continue
            open(p, "w").write(s.replace(old, new, 1))
            env = dict(os.environ, VERIF_REPO=r)
            q = subprocess.run(["/opt/venv/bin/python", "-m", "mc." + prop.lower()], cwd="/verif", env=env, capture_output=True, text=True)
            out = [l for l in q.stdout.split("\n") if l.startswith("VIOLATION")]
            print(prop, name, "caught" if q.returncode == 1 and out else "MISSED rc=%d" % q.returncode, flush=True)
            if q.returncode not in (0, 1):
                print(q.stderr[-500:])
        finally:
            shutil.rmtree(d)


main()
