QUICK_S = 25
THOROUGH_S = 600
TECH = "deterministic simulation with fault injection: seeded search over operation histories, schedules and fault sequences"
NOT_APPLICABLE = {
 "C24": "pure functions of their arguments: no schedule, clock, I/O, fault or history for a simulator to vary; generated inputs alone would not be simulation",
}
_S = "Seeded sampling, not proof: %s Trusts the simulated disk's model of the kernel and the reference model in the workload."
PROPS = {
"C01": dict(tus=["c01_write.cpp"], note=_S % "rasters, output forms, leftovers and disk faults during writes are searched."),
 "C02": dict(tus=["c02_crash.cpp"], note=_S % "kill points between file-system changes, torn last writes and disk faults during raster overwrites are searched."),
"C03": dict(tus=["c03_read.cpp"], note=_S % "stored rasters, loading forms and read-fault sequences are searched."),
 "C04": dict(tus=["c04_damage.cpp"], note=_S % "damage sequences to stored rasters and the uses of what was loaded are searched."),
 "C05": dict(tus=["c05_layers.cpp"], note=_S % "layer lists, masks, missing or damaged layers and read faults on each of them are searched."),
 "C06": dict(tus=["c06_subsets.cpp"], note=_S % "zonings, groupings, subset histories and write faults on single subset files are searched."),
 "C07": dict(tus=["c07_lookup.cpp"], variant="race", note="Seeded sampling, not proof: histories, thread counts and interleavings at the granularity of single memory accesses are searched. Sequentially consistent memory is simulated."),
 "C08": dict(tus=["c08_kernels.cpp"], variant="race", note="Seeded sampling, not proof: contents, team sizes and interleavings at the granularity of single memory accesses are searched. Sequentially consistent memory is simulated."),
 "C09": dict(tus=["c09_callers.cpp"], variant="race", note="Seeded sampling, not proof: jobs, faults of one caller and interleavings at the granularity of single memory accesses, clock reads and disk operations are searched. Sequentially consistent memory is simulated; libc, libstdc++ and GDAL are uninstrumented, switched only at locks and disk operations, and libc functions with static buffers are modelled."),
 "C16": dict(tus=["c16_rmdir.cpp"], note=_S % "trees, link layouts, entry-type support, listing orders and listing/inspection/removal faults are searched."),
 "C17": dict(tus=["c17_dirs.cpp"], note=_S % "call histories with disk faults and another process acting between any two file-system operations are searched."),
 "C18": dict(tus=["c18_find.cpp"], note=_S % "directory contents, listing orders, entry-type support and listing faults are searched."),
 "C19": dict(tus=["c19_text.cpp"], note=_S % "file contents and read-fault sequences are searched."),
 "C20": dict(tus=["c20_clock.cpp"], note="Seeded sampling, not proof: clock positions, advances between clock reads, steps, zones and reading histories are searched. Trusts libc's zone rules."),
 "C21": dict(tus=["c21_arrays.cpp"], note="Seeded sampling, not proof: array operation histories, sizes, element types and allocation failures are searched."),
 "C23": dict(tus=["c23_lifecycle.cpp"], note="Seeded sampling, not proof: object histories, masks, read faults and deletion orders are searched. Trusts AddressSanitizer, the pattern fill of fresh memory and the reference grids."),
 "C10": dict(tus=["c10_store.cpp"], sim=["mongo"], mongo=True, note="Seeded sampling, not proof."),
 "C11": dict(tus=["c11_overwrite.cpp"], sim=["mongo"], mongo=True, note="Seeded sampling, not proof. Two clients overwriting one name at the same time are only required to leave readable versions and a state that the next overwrite repairs."),
 "C12": dict(tus=["c12_read.cpp"], sim=["mongo"], mongo=True, note="Seeded sampling, not proof. Damage that leaves a consistent file (another but matching length, changed bytes) is undetectable by design and not generated."),
 "C13": dict(tus=["c13_remove.cpp"], sim=["mongo"], mongo=True, note="Seeded sampling, not proof. Options select by the metadata text as given: numeric text selects numbers, other text selects strings."),
 "C14": dict(tus=["c14_subsets_db.cpp"], sim=["mongo"], mongo=True, note="Seeded sampling, not proof. One client at a time; grids are small, so each stored subset fits one GridFS chunk."),
 "C22": dict(tus=["c22_tool.cpp"], sim=["mongo"], mongo=True, repo_tus=[("apps/mask_rasterio.cpp", ["-Dmain=app_main"])], note="Seeded sampling, not proof: argument lists, configuration files, inputs and single disk or database faults are searched. Subset number 0 together with a combined output of the same name is not generated."),
 "C15": dict(tus=["c15_lookup.cpp"], sim=["mongo"], mongo=True, note="Seeded sampling, not proof. A listing that met a fault may be partial (the interface has no return value), but never holds anything the server does not."),
}
