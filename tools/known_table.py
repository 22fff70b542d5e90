KNOWN = [
    {"property": "C12", "key": "shared_settings",
     "what": "two analyses alive in one process share their settings (dynaphopy.parameters.Parameters is a singleton): "
             "setting the wave vector in the second changes what the first one computes next; "
             "probe: CsCl 2x1x1, set_reduced_q_vector on the second object, get_vc on the first"},
    {"property": "C20", "key": "histogram abscissa one bin below the centre",
     "what": "write_atomic_displacements pairs each density of the displacement histogram with an abscissa one bin width below the centre of its bin "
             "(get_atomic_displacements subtracts half a bin from the left edges instead of adding it); the stored reference of "
             "GaN_test.test_q_points_data pins it, so it cannot be repaired with the tests as they are; "
             "probe: any trajectory, write_atomic_displacements([1,0,0], file)"},
    {"property": "C22", "key": "quantum without two pi",
     "what": "the occupation number (and the fit temperature) printed by the peak analysis takes h/(2 pi) times the ordinary frequency as the energy of a phonon "
             "(analysis/fitting/__init__.py, occupancy_lor), so that (occupation + 1/2) h f is 2 pi times the printed <|dQ/dt|^2>; not repaired because the fit temperature "
             "that follows from the wrong quantum happens to agree with the temperature of a classical MD, which the one from the right quantum does not; "
             "probe: phonon_fitting_analysis of any peak with show_occupancy"},
]
