COMMON = " Floats are mathematical reals; dependencies (ortools, numpy, pandas, msgpack, multiprocessing, requests, json) enter by assumed contracts listed in the evidence; the run-time part looks for failing inputs and stands in, bounded, where an edited function leaves the verifier's reach."
P = {
    "C01": "Any study (any number of scenarios, steps, networks, nodes, elements): the linear program handed to Solver.Solve is the specified one, and the arrays of the result are its solution; the balance follows.",
    "C02": "As C01: every limit is the bound of the variable of its own element, scenario and step, and the result is read from that variable.",
    "C03": "As C01: one level row per storage, scenario and step, for any number of storages and any names.",
    "C04": "As C01: one row per converter source, scenario and step. Precondition: ratio > 0.",
    "C05": "As C01: objective = the total cost, and no other constraint than the specified ones, so that the solver's optimum is the property's; get_cost over the whole study through the contracts of C12.",
    "C06": "Scenario s of the result comes from the program of scenario s only, through Pool.map's contract (order kept); frame condition on the study; an infeasible status raises.",
    "C07": "NumericalValueFactory.create and the four classes, for all shapes and entries.",
    "C08": "Every builder call on any study satisfying the data-structure invariant; heap frame conditions.",
    "C09": "to_json / from_json of every class, symbolic heap, any sizes. Precondition: no ':' in names.",
    "C10": "Every table builder, any sizes, as relations row -> (element, scenario, step).",
    "C11": "All 24 orders, 6 kinds, filters none/one/many; slices with symbolic bounds and positive step.",
    "C12": "get_cost, get_balance, get_rac, get_elements_inside over the tables' contract (C10).",
    "C14": "Any number of stages and any columns: plugs, linking (fold over the stages) and running, heap frame conditions on the operands and the data. Stages of users enter by the contract of Stage.__call__ (proved).",
    "C15": "Timelines of any number of rows, columns and scenarios, any parameters; random draws are any values the generator may give, as functions of a ghost random state.",
    "C16": "Any number of sources, scenarios, rows and draws; the sampler is any function giving as many indices as asked within the number of scenarios (numpy's randint by contract), Pool.map keeps the order.",
    "C17": "Selectors on any study and result, over the contracts of the tables (C10) and aggregates (C12); HTML plots on any data of the shapes the selectors give, a plotly figure being the list of its traces. Colours, titles, layout and the height of the gaussian curve are left to the run-time part.",
    "C13": "Any sequence of answers (polling loop cut by an invariant). Termination of the server is not claimed.",
}
LEVEL = {k: "proof" for k in P}
NOTE = {k: v + COMMON for k, v in P.items()}
