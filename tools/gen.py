#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties
whose check module exists are listed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=["pyDeltaRCM/" + f for f in files],
                  mech=[{"name": n, "where": w} for n, w in mech], technique=technique,
                  note=note, observe=observe or [], level=level))


COMMON = ("Held on the executions observed, nothing more; workload seeds come from "
          "VERIF_SEED. ")

prop("C01", "A run is a function of its configuration and seed",
     "Two runs with the same configuration and the same seed go through identical states "
     "at every time step, whatever ran before in the process or memory happens to hold, in another process, with any "
     "output, verbosity or checkpoint settings, and whether configured by file or "
     "keyword. Different seeds give different runs. A run started without a seed records the "
     "seed it drew, and using that seed reproduces it.",
     ["configurations", "inputs", "histories"],
     "all valid configurations and seeds, all prior activity in the process, all output settings",
     "tests compare a few fixed configurations against stored values; they do not vary what "
     "ran before, what is saved, or the process.",
     ["init_tools.py", "shared_tools.py", "model.py", "iteration_tools.py"],
     [("set_random_seed / seed resolution", "shared_tools.set_random_seed, init_tools.init_tools.process_input_to_model"),
      ("single RNG stream", "shared_tools.get_random_uniform")],
     "run-pair trace comparison: per-step state digests of the same configuration under different circumstances",
     COMMON + "Bit-exact comparison of compiled runs in the same and in fresh processes.",
     ["DeltaModel.update", "log file"])

prop("C02", "Resuming from a checkpoint continues the same run",
     "A run interrupted at any step and resumed from its saved checkpoint continues with "
     "exactly the states, times, sea level and random choices of the uninterrupted run, also after "
     "several interruptions and when resumed into another output folder. The output file afterwards holds the "
     "same records, variables, units and attributes as that of the uninterrupted run, without lost or "
     "duplicated records. The same figures are written as well.",
     ["histories", "crash_points", "configurations"],
     "all configurations, all interruption points, all numbers of resumes and output settings",
     "tests resume two or three fixed configurations and compare a few variables.",
     ["iteration_tools.py", "init_tools.py", "shared_tools.py", "model.py"],
     [("checkpoint content", "iteration_tools.save_the_checkpoint"),
      ("restore", "init_tools.load_checkpoint"), ("RNG state", "shared_tools.get_random_state/set_random_state")],
     "history comparison: resumed runs against the unbroken run, state by state and record by record",
     COMMON + "Interruption is at a step boundary here; kills inside a save are C03.",
     ["checkpoint.npz", "pyDeltaRCM_output.nc"])

prop("C03", "No kill or write fault destroys a resumable run or its output",
     "If the process is killed at any moment while it saves a checkpoint, or the save fails for lack of "
     "space, the output folder still holds a complete loadable checkpoint, the previous or the new one, never a "
     "mixture. If it is killed at any moment while resuming, the records already saved are still "
     "readable and a later resume works and continues the same run.",
     ["crash_points", "fault_sequences"],
     "all kill points inside a checkpoint save and inside a resume, all file-size limits",
     "the test suite never kills a process nor injects a write fault.",
     ["iteration_tools.py", "init_tools.py"],
     [("atomic replace", "iteration_tools.save_the_checkpoint, init_tools.init_output_file")],
     "fault injection (SIGKILL at traced call boundaries, RLIMIT_FSIZE) with a resume-and-read oracle",
     COMMON + "Kill points are Python-level call boundaries inside the save/resume and file-size "
     "limits; power loss (fsync ordering) is not modelled.", ["checkpoint.npz", "pyDeltaRCM_output.nc"],
     level="fault_enumeration")

prop("C04", "Output files hold exactly the enabled data, when due, as the model had it",
     "The output file contains exactly the enabled variables, with their documented names, units "
     "and dimensions, and one record for each time a save was due: the initial state and "
     "then whenever at least the configured interval has passed. Every saved grid, time, sea level and "
     "other metadata value is the model's own value at that moment, in the current and the legacy layout. "
     "Figures are written for exactly the enabled quantities at the same times, showing those values.",
     ["configurations", "histories"],
     "all combinations of save switches, save intervals, layouts and states",
     "tests check that files exist and a few variables of a few configurations.",
     ["iteration_tools.py", "init_tools.py"],
     [("save schedule and variable list", "iteration_tools.output_data, init_tools.init_output_file"),
      ("writers", "iteration_tools.save_grids, make_figure, save_figure")],
     "runtime monitor snapshots at output hooks compared with an independent read of the file",
     COMMON + "Values compared at the file's single precision.", ["pyDeltaRCM_output.nc", "*.png"])

prop("C05", "Time, sea level and subsidence bookkeeping is exact",
     "Each update advances the model time by exactly one time step and the step counter by one, and raises "
     "sea level by rate times time step. The time step follows from the configured sediment supply "
     "as documented. Subsidence lowers the bed by exactly rate times time step in the subsiding region, in every step "
     "from its start time on and in none before, and never outside the region.",
     ["configurations", "histories"],
     "all configurations, numbers of updates, start times, and changes of time step or rate during a run",
     "tests check one step of one configuration each.",
     ["iteration_tools.py", "init_tools.py", "model.py"],
     [("time loop", "model.update / iteration_tools.finalize_timestep"),
      ("subsidence", "iteration_tools.apply_subsidence, init_tools.init_subsidence")],
     "invariant monitor at step hooks against an independently kept clock, sea level and bed ledger",
     COMMON, ["update", "hook_apply_subsidence"])

prop("C06", "Hydrodynamic fields are finite, consistent and bounded",
     "At the end of every water iteration and every update all fields are finite; depth is never negative and "
     "equals water surface minus bed; the water surface is never below sea level; discharge magnitude equals that of its "
     "components. Velocity is zero in dry cells, elsewhere discharge over depth, capped at twice the reference velocity and "
     "directed along the discharge. The inlet always carries the configured discharge and, after each update, "
     "the configured depth.",
     ["configurations", "histories"],
     "all valid configurations and all steps of every run",
     "tests check these on one or two configurations, for single function calls.",
     ["water_tools.py", "iteration_tools.py"],
     [("flow and velocity fields", "water_tools.finalize_water_iteration, update_flow_field, update_velocity_field"),
      ("boundary reset", "iteration_tools.finalize_timestep")],
     "state-invariant monitor at water-iteration and update hooks",
     COMMON + "Single-precision tolerances.", ["hook_finalize_water_iteration", "update"])

prop("C07", "Every water parcel follows a legal path and its discharge is accounted for",
     "In each iteration every configured parcel enters at an inlet cell, moves to adjacent cells only "
     "(or is relocated when it loops), never enters land or leaves the grid, stops at the first domain-edge "
     "cell it reaches and takes no more than the allowed number of steps. The discharge field is the sum "
     "of the discharge the parcels carried along these paths, each an equal share of the inlet discharge, relaxed "
     "against the previous field with the configured weight.",
     ["configurations", "histories", "inputs"],
     "all configurations, beds and random choices",
     "tests check single cells of hand-made arrays.",
     ["water_tools.py", "shared_tools.py"],
     [("parcel walk", "water_tools.run_water_iteration"),
      ("edge and loop handling", "water_tools.check_for_boundary, _check_for_loops"),
      ("discharge accumulation", "water_tools._update_dirQfield, _update_absQfield, update_flow_field")],
     "trace checker over every recorded parcel path, with an independent discharge ledger",
     COMMON + "A path that jumps is accepted only as the relocation of a loop. One known finding: the first-row "
     "upstream diagonal (known_findings.json).", ["hook_run_water_iteration", "hook_finalize_water_iteration"])

prop("C08", "Parcels choose directions with the documented probabilities",
     "Parcels start at each inlet cell with equal probability, or with the weights a subclass "
     "gives; water parcels step from each cell to each neighbour with the "
     "probability given by the documented rule: weights from surface slope, inertia and depth to the configured "
     "exponent, none towards dry or land cells, multiplied by any user-given weighting. Sand and mud parcels step with the documented "
     "inertia-and-depth rule with their own depth exponents.",
     ["inputs", "configurations", "histories"],
     "all local states of the flow fields, all configurations of the exponents and weights",
     "tests evaluate the weights of two or three hand-made cells and never the drawn frequencies.",
     ["water_tools.py", "sed_tools.py", "shared_tools.py"],
     [("weights", "water_tools._get_weight_at_cell_water, get_water_weight_array; sed_tools._get_weight_at_cell_sediment; shared_tools.get_weight_sfc_int"),
      ("drawing", "shared_tools.random_pick, get_start_indices")],
     "reference-model monitor of routing weights plus chi-square monitor of observed steps",
     COMMON + "Frequencies judged at p<1e-9; cells within 1e-5 of the dry threshold not judged.",
     ["hook_init_water_iteration", "routers"])

prop("C09", "Sediment mass is conserved",
     "Every sand or mud parcel carries an equal share of the sediment supplied in a time step, and the volume it adds to or takes "
     "from the bed is exactly the volume it loses or gains: what it carried in equals what it deposited net plus what it carries "
     "when it leaves. The numbers of sand and mud parcels routed follow the configured bedload fraction and total.",
     ["configurations", "histories", "inputs"],
     "all configurations, beds and random choices; every parcel",
     "tests check one deposition or erosion on one cell.",
     ["sed_tools.py", "init_tools.py"],
     [("bed and parcel volume update", "sed_tools.BaseRouter._update_fields"),
      ("supply", "init_tools.create_other_variables (Vp_sed)")],
     "conservation ledger per parcel and per sand pass",
     COMMON + "One known finding: one parcel fewer when both shares are truncated (known_findings.json).",
     ["hook_route_all_sand_parcels", "hook_route_all_mud_parcels"])

prop("C10", "Deposition and erosion follow the documented laws and limits",
     "At each cell a parcel visits, sand is deposited exactly when the flux through the cell exceeds the local transport capacity, "
     "and mud when the flow is slower than its deposition velocity; erosion occurs only when the flow is faster than the erosion velocity "
     "of that material. The volumes follow the documented capacity, deposition-rate and erosion-rate laws with the configured coefficients, and no single visit "
     "raises or lowers the bed by more than a quarter of the local depth or deposits more than the parcel carries.",
     ["inputs", "configurations", "histories"],
     "all local flow states, parcel loads and coefficient settings",
     "tests call the deposition functions with one or two numbers.",
     ["sed_tools.py"],
     [("sand law", "sed_tools.SandRouter._deposit_or_erode"), ("mud law", "sed_tools.MudRouter._deposit_or_erode"),
      ("limits", "sed_tools.BaseRouter._limit_Vp_change")],
     "access-trace monitor of each parcel's cell visits checked against the documented laws",
     COMMON, ["routers"])

prop("C11", "Sediment parcels stay in the domain and only touch cells they may",
     "A sediment parcel enters at an inlet cell and moves only to adjacent cells, never onto land or outside the grid, ends at the first domain-edge cell "
     "it reaches, and takes at most the allowed number of steps. Land and other cells no parcel visits keep their bed elevation "
     "during sediment routing, and changes of bed and velocity at visited cells are mutually consistent.",
     ["inputs", "configurations", "histories"],
     "all beds, flow fields and random choices",
     "tests route a handful of parcels on flat beds.",
     ["sed_tools.py", "shared_tools.py"],
     [("walk", "sed_tools.BaseRouter._choose_next_location, run"), ("local field update", "sed_tools._update_fields")],
     "access-trace monitor over every sediment parcel's cell visits",
     COMMON, ["routers"])

prop("C12", "Topographic diffusion follows its equation",
     "After the sand of a time step is routed, the bed is diffused the configured number of times exactly as documented: each interior cell gives and receives "
     "sediment in proportion to bed slope, sand flux and the diffusion coefficient, symmetrically between neighbours. Land and inlet "
     "cells do not change, nothing changes where there is no flux or the coefficient is zero, and diffusion between interior cells creates no sediment.",
     ["inputs", "configurations"],
     "all beds, fluxes, coefficients and repetition counts",
     "tests diffuse one hand-made bump.",
     ["sed_tools.py", "init_tools.py"],
     [("diffusion", "sed_tools.topo_diffusion"), ("count and multiplier", "init_tools.create_other_variables (N_crossdiff, diffusion_multiplier)")],
     "reference-model monitor around the diffusion step of real runs",
     COMMON, ["hook_topo_diffusion"])

prop("C13", "Surface sand fraction is a mass-consistent fraction",
     "After every update the sand fraction is finite and in [0, 1] everywhere. Where sand or mud was "
     "deposited in the step, the surface sand fraction and that of the active layer become the sand "
     "share of the deposited volume. Where the bed was instead lowered but less than the active layer "
     "thickness, the surface takes the active layer's value; where it was lowered by more, it takes "
     "the configured basement value. Everywhere else it keeps its value.",
     ["inputs", "configurations", "histories"],
     "all histories of deposition and erosion",
     "tests check one step of a tiny model.",
     ["iteration_tools.py"], [("sand fraction", "iteration_tools.compute_sand_frac")],
     "reference-model monitor at the sand-fraction step", COMMON,
     ["hook_compute_sand_frac", "update"])

prop("C14", "The water surface is rebuilt as documented",
     "Each water iteration computes a new surface by integrating each parcel's path backwards from its end at sea level with the "
     "reference slope along the flow and averaging over parcels, smooths it and relaxes the previous surface towards it by the configured weights. After each iteration the surface is at or above sea level, equals "
     "the inlet condition where required, and dry cells next to higher water are flooded as documented after the last.",
     ["inputs", "configurations", "histories"],
     "all parcel paths, beds, and weights",
     "tests exercise single helper calls on small arrays.",
     ["water_tools.py"], [("accumulate", "water_tools._accumulate_free_surface_walks"),
     ("smooth", "water_tools._smooth_free_surface"), ("relax and flood", "water_tools.finalize_free_surface, flooding_correction")],
     "reference-model monitor around the free-surface and flooding steps of real runs",
     COMMON, ["hook_compute_free_surface", "hook_finalize_water_iteration"])

prop("C15", "Configuration is validated, defaulted and applied as documented",
     "Every documented parameter takes the value given by keyword, else by the configuration file, "
     "else its documented default, and the model uses exactly that value; parameters not given never "
     "change others. A value of the wrong type is refused with a TypeError, one out of range with a "
     "ValueError, before any output is produced. Unknown keywords, and keywords that replace a value "
     "of the file, give a warning. Parameters declared by a subclass are treated alike. Derived "
     "quantities equal their documented formulas, and the log records the configuration.",
     ["configurations", "inputs"],
     "all parameters, values, types and sources",
     "tests try a few parameters.",
     ["init_tools.py", "model.py", "shared_tools.py", "default.yml"],
     [("input import", "init_tools.import_files"), ("application", "init_tools.process_input_to_model"),
      ("derived", "init_tools.set_constants, create_other_variables")],
     "reference-model monitor of the constructed model over generated configurations", COMMON,
     ["DeltaModel constructor", "log file"])

prop("C16", "The preprocessor expands job specifications exactly",
     "A matrix yields one job for each combination of its values, a set one job per member, an "
     "ensemble the given number of replicates of each with different seeds, and combined all of them: "
     "each job exactly once, with a folder of its own under the parent output folder. Each job's "
     "configuration file, read back, holds exactly the values of that job with their types plus the "
     "shared parameters, and the job table lists the varying ones. Invalid specifications are refused "
     "before any job folder is made, existing job folders are refused unless resuming, and what the "
     "user passed in is not changed.",
     ["configurations", "inputs"],
     "all matrices, sets, ensembles, value types and sources (file, keyword, command line)",
     "tests expand a few fixed two-parameter matrices.",
     ["preprocessor.py"], [("expansion", "preprocessor._BasePreprocessor.expand_yaml_matrix / set / ensemble"),
     ("config files", "preprocessor._write_yaml_config_to_file")],
     "reference-model monitor: independent expansion compared with job list and files on disk", COMMON,
     ["Preprocessor.file_list", "job YAML files"])

prop("C17", "Jobs run for exactly the requested duration, isolated from each other",
     "A job runs until the requested number of time steps, time or (if-scaled) years is reached and "
     "no further step, also when resumed; time steps go before time and time before years when several are given, "
     "and a duration given by command line or keyword replaces that of the same kind in the file. A dry run sets jobs up and runs none. Every job gives the result it would give on its own, in serial or in parallel with "
     "any number of workers, and never more jobs at once than workers asked for. A job that fails "
     "during its run with a run-time or value error does not stop or change the others, and is reported. All jobs "
     "end: none is lost, run twice, or left waiting.",
     ["schedules", "configurations", "fault_sequences"],
     "all durations, numbers of jobs and workers, schedules and job failures",
     "tests run two jobs of a couple of steps.",
     ["preprocessor.py"], [("job loop", "preprocessor._BaseJob"), ("workers", "preprocessor._ParallelJob, run_jobs")],
     "event-log checker over instrumented serial and parallel job runs, with injected failures and delays", COMMON,
     ["Preprocessor.run_jobs", "output files"])

prop("C18", "No computation reads or writes outside its arrays",
     "During initialisation and every update no kernel indexes an array beyond its bounds, on any valid configuration and bed.",
     ["inputs", "configurations", "histories"],
     "all valid configurations, beds and random choices",
     "tests run kernels without bounds checks on benign inputs.",
     ["water_tools.py", "sed_tools.py", "shared_tools.py"],
     [("padding and index arithmetic", "shared_tools.custom_pad, custom_ravel, custom_unravel; routers")],
     "bounds-check sanitizer (numba boundscheck) over hostile workloads", COMMON,
     ["update"])

prop("C19", "Hooks are called in the documented order, exactly once each",
     "Every documented hook is called exactly once for each occurrence of the step it precedes or "
     "follows, directly before or after it, in the documented order, in fresh, resumed and "
     "deferred-output models. What a hook changes is used by the step it announces. A hook that does "
     "nothing changes nothing, and a model with a hook name that is no longer called is refused.",
     ["histories", "configurations"], "all runs, configurations and resumes",
     "tests check that each hook is called once in one update.",
     ["hook_tools.py", "model.py", "iteration_tools.py", "water_tools.py", "sed_tools.py", "init_tools.py"],
     [("hook calls", "hook_tools.hook_tools")],
     "trace-specification checker over recorded hook events", COMMON, ["hooks"])

prop("C20", "A model's lifecycle and file footprint are contained",
     "A finalized model refuses further updates and further finalisation with an error, and leaves "
     "its state and output as they are; it keeps none of its files open. A model never writes, renames or removes anything outside its "
     "output folder, also when several models are alive or the working folder changes, and leaves the user's open figures, working folder, environment and library settings alone. The NetCDF file of an earlier run in the "
     "folder is never overwritten unless the user asks for it: the new run is refused and the earlier files "
     "stay untouched.",
     ["histories", "configurations"], "all sequences of operations and all output settings",
     "tests finalise one model.",
     ["model.py", "init_tools.py", "iteration_tools.py"],
     [("finalized flag", "model.finalize/update"), ("output folder", "init_tools.init_output_infrastructure")],
     "operation-sequence monitor with a file-system audit hook", COMMON, ["update", "finalize"])

prop("C21", "Inspecting a model shows its true state and changes nothing",
     "show_attribute draws exactly the values of the named two-dimensional attribute, cell by cell, with row "
     "and column as y and x. show_ind and show_line mark exactly the cells asked for, given as tuples, flat "
     "indices, arrays or lists of them, in the axes asked for, and every line drawn is returned; index zero is left "
     "out only on request. Names which are no grid, flat indices which are no cell and tuples not of two numbers are refused with an error and "
     "nothing is drawn. The named views of bed, depth, surface, time and inlet conditions give the current values. A message is logged exactly when its level is within the verbosity. Neither inspecting nor "
     "logging changes the model, its random choices or its later run.",
     ["inputs", "configurations", "histories"],
     "all attributes, cells, lines and notations, models at any point of their life, all verbosities",
     "tests compare a few images on one default domain, most of which are not compared in a plain test run at all.",
     ["debug_tools.py", "iteration_tools.py", "init_tools.py"],
     [("drawing", "debug_tools.show_attribute/show_ind/show_line, plot_domain/plot_ind/plot_line"),
      ("logging", "iteration_tools.log_info, init_tools.init_logger")],
     "monitors on the artists handed to matplotlib and on the log, against the model's arrays; continuation compared with an undisturbed twin",
     COMMON + "What matplotlib then renders is not judged.",
     ["DeltaModel.show_attribute", "DeltaModel.show_ind", "DeltaModel.show_line", "log file"])

prop("C22", "Changing a parameter on a live model takes full effect",
     "After a model's inlet velocity, depth, width or sediment concentration, bedload fraction, sea "
     "level or its rate, relaxation and smoothing weights, active layer, basement sand fraction, "
     "subsidence start or output switches are set on the live model, reading it gives the value set, "
     "every quantity documented to depend on it is updated, and the following updates behave like "
     "those of a model in which it had that value (the width changes the supply and what follows "
     "from it, the inlet cells stay; erosion and deposition threshold velocities stay those of the initial velocity). Nothing else changes. Invalid values of any "
     "parameter are refused.",
     ["histories", "inputs", "configurations"], "all settable parameters, values and moments in a run",
     "tests set a parameter and read it back.",
     ["model.py"], [("property setters", "model.DeltaModel properties")],
     "differential monitor: live model after setting against a model built with the value", COMMON,
     ["DeltaModel properties"])

prop("C23", "The initial domain is what the configuration describes",
     "The grid has the configured size and spacing; the inlet is centred with the configured width "
     "and length, limited to a quarter of the grid and at least three cells; land, inlet, ocean and "
     "domain-edge cells are where documented. The initial fields are those of a flat basin of the "
     "configured depth with the water surface at zero and an inlet channel of the configured depth "
     "and surface slope, carrying the configured discharge, a fifth of it in the basin, with no "
     "deposits and the configured basement sand fraction.",
     ["configurations"], "all domain sizes, spacings, inlet shapes and depths",
     "tests check a few attributes for two or three domains.",
     ["init_tools.py"], [("domain", "init_tools.create_domain, create_other_variables")],
     "reference-model monitor of the initial state over generated domains", COMMON,
     ["DeltaModel constructor"])

prop("C24", "Array, random and time helpers are exact for all inputs",
     "Padding, flattening and unflattening of indices, neighbour tables, routing weights, weighted "
     "random picks, random-state save and restore, conversions of time units and reading of numbers "
     "behave as documented for every array shape, index, weight vector and value: inverse operations "
     "are inverses, indices outside the array are refused, only outcomes with weight are drawn and "
     "with that probability, and a restored random state continues the same stream.",
     ["inputs", "histories"], "all shapes, indices, weights, states and times",
     "tests try a few values.",
     ["shared_tools.py"], [("helpers", "shared_tools")],
     "reference-model monitor over generated helper calls", COMMON, ["shared_tools functions"])


def main():
    have = [p for p in P if os.path.exists(
        os.path.join(V, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    json.dump({
        "version": 1, "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in have],
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors use the model's public hooks, attributes and files."
    }, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
