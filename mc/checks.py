APP = [("apps/calibrate/src/calibrate.cpp", "calibrate_main")]


BOTH = APP + [("apps/create_charuco_boards/src/create_charuco_boards.cpp", "boards_main")]


def bb(src, **k):
    """harness driving the calibrate application"""
    d = dict(harness=src, app=APP, mc_sources=("rng.cpp", "world.cpp"))
    d.update(k)
    return d


CHECKS = {
    "C01": dict(parts=[dict(build=bb("c01_camera_topology.cpp"))]),
    "C02": dict(parts=[dict(build=bb("c02_board_topology.cpp"))]),
    "C03": dict(parts=[dict(build=bb("c03_partition.cpp"))]),
    "C04": dict(parts=[dict(build=bb("c04_registry.cpp"))]),
    "C05": dict(parts=[dict(build=dict(harness="c05_graph.cpp"), mem=2)]),
    "C07": dict(parts=[dict(build=bb("c07_keypoints.cpp"))]),
    "C06": dict(parts=[
        dict(build=dict(harness="c06_detection_schedules.cpp",
                        mc_sources=("rng.cpp", "sched.cpp", "stubs_cv.cpp", "world.cpp"), app=APP)),
        dict(build=dict(harness="c06_detection_schedules.cpp", variant="tsan",
                        mc_sources=("rng.cpp", "sched.cpp", "stubs_cv.cpp", "world.cpp"), app=APP)),
    ]),
    "C18": dict(parts=[dict(build=bb("c18_charuco.cpp", app=BOTH))]),
    "C19": dict(parts=[dict(build=bb("c19_geometry.cpp"))]),
    "C23": dict(parts=[dict(build=bb("c23_images_to_rig.cpp", app=BOTH))]),
    "C24": dict(parts=[dict(build=dict(harness="c24_images.cpp",
                mc_sources=("rng.cpp", "stubs_cv.cpp", "world.cpp"), app=APP))]),
    "C22": dict(parts=[dict(build=bb("c22_chaining.cpp"))]),
    "C17": dict(parts=[dict(build=bb("c17_config.cpp", app=BOTH))]),
    "C21": dict(parts=[dict(build=dict(harness="c21_saddle.cpp")),
                       dict(build=dict(harness="c21_saddle.cpp", variant="asan")),
                       dict(build=dict(harness="c21_detect.cpp",
                mc_sources=("rng.cpp", "stubs_cv.cpp", "world.cpp"), app=APP))]),
    "C20": dict(parts=[dict(build=dict(harness="c20_extraction.cpp",
                mc_sources=("rng.cpp", "stubs_cv.cpp", "world.cpp"), app=APP))]),
    "C13": dict(parts=[dict(build=bb("c13_weak.cpp")),
                       dict(build=bb("c13_weak.cpp", variant="asan"))]),
    "C14": dict(parts=[dict(build=bb("c14_outliers.cpp"))]),
    "C08": dict(parts=[dict(build=bb("c08_camera_file.cpp"))]),
    "C09": dict(parts=[dict(build=bb("c09_objects_poses.cpp"))]),
    "C10": dict(parts=[dict(build=bb("c10_report.cpp"))]),
    "C11": dict(parts=[dict(build=bb("c11_optimality.cpp"))]),
    "C12": dict(parts=[dict(build=bb("c12_intrinsics.cpp"))]),
    "C15": dict(parts=[dict(build=bb("c15_handeye.cpp"))]),
    "C25": dict(parts=[dict(build=bb("c25_stages.cpp"))]),
    "C26": dict(parts=[dict(build=bb("c26_reproducible.cpp"))]),
    "C27": dict(parts=[dict(build=bb("c27_equivariance.cpp"))]),
    "C28": dict(parts=[dict(build=bb("c28_instances.cpp"))]),
    "C29": dict(parts=[dict(build=bb("c29_accessors.cpp"))]),
    "C30": dict(parts=[dict(build=bb("c30_memory.cpp", app=BOTH)),
                       dict(build=bb("c30_memory.cpp", app=BOTH, variant="asan"))]),
    "C31": dict(parts=[dict(build=bb("c31_passes.cpp"))]),
    "C16": dict(parts=[dict(build=bb("c16_groups.cpp"))]),
}
