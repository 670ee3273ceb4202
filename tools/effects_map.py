"""The functions that implement each property: (module, function) expressions"""
M = r"now\.persistence\.models\."
L = r"now\.persistence\.lightweight\."
C = r"now\.persistence\.content\."
ALL = r".*"
COLLECTOR = r"now\.collection\.prov_execution\.collector"
SKIP = [r"__repr__", r":.*\bshow$", r"_ipython_display_", r"GitContentDatabaseEngine\._inc_name"]
MAP = {
    "A03": [(COLLECTOR, r"Collector\..*"), (r"now\.collection\.prov_execution\.structures", ALL)],
    "A04": [(COLLECTOR, r"Collector\.(start_\w+|close_\w+|_?call|collect_\w+|_?class\w*|_?function_def|"
                        r"_?exception|_?script\w*|start_activation|add_exception|get_value|_?return)")],
    "A05": [(COLLECTOR, r"Collector\.(new_open|.*open.*|put_file|close_\w+|add_file\w*|.*file.*)"),
            (L + r"file_access", ALL)],
    "C01": [(C + ALL, ALL), (r"now\.persistence\.content_database", ALL)],
    "C02": [(C + ALL, r".*(put|do_put|_put|write|save|create).*")],
    "C03": [(C + ALL, ALL), (r"now\.persistence\.content_database", ALL)],
    "C04": [(C + r"parallel", ALL), (C + ALL, r".*(commit|close|put|thread|start|worker).*"),
            (r"now\.persistence\.content_database", ALL)],
    "C05": [(C + r"safeopen", ALL), (r"now\.collection\.prov_execution\.execution", ALL)],
    "D01": [(L + ALL, ALL)],
    "D02": [(L + r"bundle", ALL), (r"now\.utils\.(collab|compression)", ALL),
            (r"now\.cmd\.cmd_(export|import|push|pull)", ALL),
            (M + ALL, r".*(create|load|push|pull|all|get|list|fast_store|to_dict|find).*")],
    "D03": [(M + ALL, ALL)],
    "D05": [(L + r"base", ALL), (r"now\.collection\.metadata", ALL), (r"now\.persistence\.relational_database", ALL),
            (M + r"base", r".*(store|fast|create).*")],
    "E01": [(r"now\.cmd\.cmd_run", ALL), (r"now\.collection\.metadata", ALL),
            (r"now\.collection\.prov_execution\.execution", ALL),
            (r"now\.collection\.prov_(definition\.definition|deployment\.deployment)", ALL),
            (M + r"trial", r".*(create|update|fast).*")],
    "E03": [(r"now\.collection\.prov_deployment\..*", ALL)],
    "G01": [(r"now\.models\.graphs\.(trial_graph|structures)", ALL), (M + r"graph_cache", ALL)],
    "N01": [(r"now\.models\.dependency_graph\.(clusterizer|attributes|dot_visitor|prov_visitor|base_visitor)", ALL)],
    "H01": [(M + r"(trial|head|tag)", r".*(create|load|last|tag|find|remove|script|parent|session|module).*"),
            (M + r"tag", ALL), (M + r"head", ALL)],
    "H02": [(r"now\.models\.graphs\.history_graph", r"(HistoryGraph|Node|Version)\..*"),
            (r"now\.models\.history", ALL), (r"now\.cmd\.cmd_history", ALL),
            (M + r"tag", r".*auto_tags"), (M + r"trial", r".*(match|reverse|all|distinct).*")],
    "K02": [(r"now\.cmd\.cmd_(show|list|history|dataflow|evaluation|diff|gc|clean)", ALL)],
    "R01": [(r"now\.cmd\.cmd_restore", ALL)],
    "R02": [(r"now\.cmd\.cmd_restore", ALL),
            (M + r"trial", r".*(versioned|iterate|find_by|create_head|load_parent).*"),
            (M + r"file_access", r".*find.*"), (M + r"head", ALL)],
    "P01": [(r"now\.utils\.prolog", ALL), (r"now\.models\.trial_prolog", ALL)],
    "W01": [(r"now\.vis\.views", ALL)],
    "W02": [(r"now\.vis\.views", r".*(command|run|restore|push|pull|export|collab|exec).*")],
    "X01": [(r"now\.models\.(diff|graphs\.diff_graph)", ALL),
            (r"now\.cmd\.cmd_diff", r".*(function|lcs|variables|arguments).*")],
}
