"""Which specification modules and drivers decide which property."""
def MC(m, **k):
    return dict(module=m, quick=m + "_quick.cfg", thorough=m + "_thorough.cfg", **k)


CHECKS = {
    "B01": dict(models=[MC("MCRat"), MC("MCBins")], traces=[("d_b01", "TraceBins")]),
    "B02": dict(models=[MC("MCBins")], traces=[("d_b02", "TraceBins")]),
    "B03": dict(models=[MC("MCBinsFlat")], traces=[("d_b03", "TraceBinsFlat")]),
    "M01": dict(models=[MC("MCCoupling")], traces=[("d_m01", "TraceCoupling")]),
    "W01": dict(models=[MC("MCWorkspace")], traces=[("d_w01", "TraceWorkspace")]),
    "W02": dict(models=[MC("MCWorkspace")], traces=[("d_w02", "TraceWorkspace")]),
    "W03": dict(models=[MC("MCStore")], traces=[("d_w03", "TraceStore")]),
    "H01": dict(models=[MC("MCSphere")], traces=[("d_h01", "TraceSphere")]),
    "M02": dict(models=[MC("MCPure")], traces=[("d_m02", "TraceCoupling"), ("d_m02f", "TraceSphere")]),
    "M03": dict(models=[MC("MCToeplitz")], traces=[("d_m03", "TraceCoupling")]),
    "M04": dict(models=[MC("MCAniso")], traces=[("d_m04", "TraceCoupling"), ("d_m04f", "TraceField")]),
    "F01": dict(models=[MC("MCSphere")], traces=[("d_f01", "TraceField"), ("d_f01s", "TraceSphere")]),
    "F02": dict(models=[MC("MCSphere")], traces=[("d_f02", "TraceField")]),
    "F05": dict(models=[MC("MCPurity")], traces=[("d_f05", "TracePurity")]),
    "F04": dict(models=[MC("MCGeometry")], traces=[("d_f04", "TraceGeometry")]),
    "F03": dict(models=[MC("MCDeproj")], traces=[("d_f03", "TraceField")]),
    "C01": dict(models=[MC("MCCatalog")], traces=[("d_c01", "TraceCatalog"), ("d_c01m", "TraceCoupling")]),
    "C02": dict(models=[MC("MCCatalog")], traces=[("d_c02", "TraceCatalog")]),
    "W05": dict(models=[MC("MCMaster")], traces=[("d_w05", "TraceWorkspace")]),
    "L01": dict(models=[MC("MCFlat")], traces=[("d_l01", "TraceFlat")]),
    "L02": dict(models=[MC("MCFlat")], traces=[("d_l02", "TraceFlat")]),
    "L03": dict(models=[MC("MCFlatBias")], traces=[("d_l03", "TraceFlat")]),
    "V01": dict(models=[MC("MCCovar")], traces=[("d_v01", "TraceCovar")]),
    "V02": dict(models=[dict(module="MCCovarFlat", quick="MCCovarFlat_quick.cfg", thorough="MCCovarFlat_thorough.cfg"), dict(module="MCCovarFlat", quick="MCCovarFlat_quick_mirror.cfg", thorough="MCCovarFlat_thorough_mirror.cfg")], traces=[("d_v02", "TraceFlatCov")]),
    "A01": dict(models=[MC("MCApod")], traces=[("d_a01", "TraceApod")]),
    "A02": dict(models=[MC("MCApod")], traces=[("d_a02", "TraceApodFlat")]),
    "S01": dict(models=[MC("MCSim")], traces=[("d_s01", "TraceSim")]),
    "S02": dict(models=[MC("MCSim")], traces=[("d_s02", "TraceSimFlat")]),
    "P02": dict(models=[MC("MCPinv")], traces=[("d_p02", "TracePinv")]),
    "P01": dict(models=[MC("MCParams")], traces=[("d_p01", "TraceParams")]),
    "W04": dict(models=[MC("MCFaults")], traces=[("d_w04", "TraceFaults")]),
}
