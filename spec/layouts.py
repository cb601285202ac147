"""
Layout of every supported file format, written down independently of the
readers: what is in the file, in file order.  Used as the postcondition of the
readers both in the proofs and in the run time checks.

Entry:  (name, type, dims)        dataset
        ("@" + name, type, dims)  attribute
        "[" / "]"                 start/end of a Fortran record (4 byte markers)
        ("?flag", [entries])      only if the option is set
        ("?n>0:ng", [entries])    only if the count is not zero
        ("#marker", value)        a 4 byte marker with this fixed value (or None: any)
type: i4 u4 i8 u8 f4 f8 u1 Sn;  F = float type option, I = (unsigned) ID type option;
      a list of (field, type, dims) is a structure
dims: integers, or names of header fields (their values).
"""
SO_VEL = ("?SO_VEL_DISPERSIONS", [("VelDisp_Mean200", "F", ("ng",)), ("VelDisp_Crit200", "F", ("ng",)), ("VelDisp_TopHat200", "F", ("ng",))])

LG2_HDR = [("Ngroups", "i4", ()), ("Nids", "i4", ()), ("TotNgroups", "i4", ()), ("NTask", "i4", ())]
LG2_HDR_F = [("Ngroups", "i4", ()), ("Nids", "i4", ()), ("TotNgroups", "i4", ()), ("NFiles", "i4", ())]
PG3_HDR = [("Ngroups", "i4", ()), ("TotNgroups", "i4", ()), ("Nids", "i4", ()), ("TotNids", "i8", ()), ("NTask", "i4", ())]
LG3_HDR = [("Ngroups", "i4", ()), ("TotNgroups", "i8", ()), ("Nids", "i4", ()), ("TotNids", "i8", ()), ("NTask", "i4", ())]

def each(fields, n):
    """name:type[:dims] words, one array of n items each"""
    out = []
    for w in fields.split():
        p = w.split(":")
        out.append((p[0], p[1], (n,) + tuple(int(d) for d in p[2].split(",")) if len(p) > 2 else (n,)))
    return out

def recs(fields, n):
    out = []
    for f in each(fields, n): out += ["[", f, "]"]
    return out

ROCKSTAR_HALO = [tuple([w.split(":")[0], w.split(":")[1], (int(w.split(":")[2]),) if w.count(":") > 1 else ()]) for w in """
 id:i8 pos:f4:6 corevel:f4:3 bulkvel:f4:3 m:f4 r:f4 child_r:f4 vmax_r:f4 mgrav:f4 vmax:f4 rvmax:f4 rs:f4 klypin_rs:f4 vrms:f4 J:f4:3
 energy:f4 spin:f4 alt_m:f4:4 Xoff:f4 Voff:f4 b_to_a:f4 c_to_a:f4 A:f4:3 b_to_a2:f4 c_to_a2:f4 A2:f4:3 bullock_spin:f4 kin_to_pot:f4
 m_pe_b:f4 m_pe_d:f4 halfmass_radius:f4 num_p:i8 num_child_particles:i8 p_start:i8 desc:i8 flags:i8 n_core:i8 min_pos_err:f4
 min_vel_err:f4 min_bulkvel_err:f4 type:i4 sm:f4 gas:f4 bh:f4 peak_density:f4 av_density:f4""".split()]
ROCKSTAR_HYDRO = ("type", "sm", "gas", "bh", "peak_density", "av_density")

TREE_HALO = [(a, b, tuple(int(x) for x in c)) for a, b, *c in (w.split(":") for w in """
 Descendant:i4 FirstProgenitor:i4 NextProgenitor:i4 FirstHaloInFOFgroup:i4 NextHaloInFOFgroup:i4 Len:i4 M_Mean200:f4 M_Crit200:f4
 M_TopHat:f4 Pos:f4:3 Vel:f4:3 VelDisp:f4 VMax:f4 Spin:f4:3 MostBoundID:I SnapNum:i4 FileNr:i4 SubhaloIndex:i4 SubhalohalfMass:f4""".split())]

VELO_HALO = [(a, b, tuple(int(x) for x in c[0].split(",")) if c else ()) for a, b, *c in (w.split(":") for w in """
 haloid:u8 ibound:u8 hostid:u8 numsubs:u8 num:u8 stype:u4 directhostid:u8 hostfofid:u8
 gMvir:f8 gcm:f8:3 gpos:f8:3 gcmvel:f8:3 gvel:f8:3 gmass:f8 gMFOF:f8 gM200m:f8 gM200c:f8 gMvir_again:f8 Efrac:f8 gRvir:f8 gsize:f8
 gR200m:f8 gR200c:f8 gRvir_again:f8 gRhalfmass:f8 gRmaxvel:f8 gmaxvel:f8 gsigma_v:f8 gveldisp:f8:3,3 glambda_B:f8 gJ:f8:3 gq:f8 gs:f8
 geigvec:f8:3,3 cNFW:f8 Krot:f8 T:f8 Pot:f8 RV_sigma_v:f8 RV_veldisp:f8:3,3 RV_lambda_B:f8 RV_J:f8:3 RV_q:f8 RV_s:f8 RV_eigvec:f8:3,3""".split())]

LAYOUTS = {
 "lgadget2.GroupTabFile": LG2_HDR + each("GroupLen:i4 GroupOffset:i4", "Ngroups") + [("GroupMinLen", "i4", ()), ("Count", "i4", ("GroupMinLen",))],
 "lgadget2.GroupIDsFile": LG2_HDR + each("GroupIDs:I", "Nids"),
 "lgadget2.SubTabFile": LG2_HDR_F + [("Nsubhalos", "i4", ())] + each("NsubPerHalo:i4 FirstSubOfHalo:i4", "Ngroups")
    + each("SubLen:i4 SubOffset:i4 SubParentHalo:i4", "Nsubhalos")
    + each("Halo_M_Mean200:f4 Halo_R_Mean200:f4 Halo_M_Crit200:f4 Halo_R_Crit200:f4 Halo_M_TopHat200:f4 Halo_R_TopHat200:f4", "Ngroups")
    + each("SubPos:f4:3 SubVel:f4:3 SubVelDisp:f4 SubVmax:f4 SubSpin:f4:3 SubMostBoundID:I SubHalfMass:f4", "Nsubhalos"),
 "lgadget2.SubIDsFile": LG2_HDR_F + each("GroupIDs:I", "Nids"),
 "lgadget2.SnapshotFile": ["[", ("@Header/NumPart_ThisFile", "u4", (6,)), ("@Header/MassTable", "f8", (6,)), ("@Header/Time", "f8", ()),
    ("@Header/Redshift", "f8", ()), ("@Header/Flag_Sfr", "i4", ()), ("@Header/Flag_Feedback", "i4", ()), ("@Header/NumPart_Total", "u4", (6,)),
    ("@Header/Flag_Cooling", "i4", ()), ("@Header/NumFilesPerSnapshot", "i4", ()), ("@Header/BoxSize", "f8", ()), ("@Header/Omega0", "f8", ()),
    ("@Header/OmegaLambda", "f8", ()), ("@Header/HubbleParam", "f8", ()), ("@Header/Flag_StellarAge", "i4", ()), ("@Header/Flag_Metals", "i4", ()),
    ("@Header/HashTabSize", "i4", ()), ("@Header/fill", "u1", (84,)), "]",
    "[", ("PartType1/Coordinates", "f4", ("NPART1", 3)), "]", "[", ("PartType1/Velocities", "f4", ("NPART1", 3)), "]",
    "[", ("PartType1/ParticleIDs", "u8", ("NPART1",)), "]", "[", ("first_hash_cell", "i4", ()), ("last_hash_cell", "i4", ()), "]",
    "[", ("blockid", "i4", ("NHASH",)), "]"],
 "lgadget3.SubTabFile": LG3_HDR + [("Nsubgroups", "i4", ()), ("TotNsubgroups", "i8", ())]
    + each("GroupLen:i4 GroupOffset:i4 GroupNr:i8 GroupCofM:F:3 GroupVel:F:3 GroupPos:F:3 Halo_M_Mean200:F Halo_M_Crit200:F Halo_M_TopHat200:F GroupVelDisp:F", "Ngroups")
    + [("?SO_VEL_DISPERSIONS", each("VelDisp_Mean200:F VelDisp_Crit200:F VelDisp_TopHat200:F", "Ngroups"))]
    + each("Nsubs:i4 FirstSub:i4", "Ngroups")
    + each("SubLen:i4 SubOffset:i4 SubGrNr:i8 SubNr:i8 SubPos:F:3 SubVel:F:3 SubCofM:F:3 SubSpin:F:3 SubVelDisp:F SubVmax:F SubRVmax:F SubHalfMass:F", "Nsubgroups")
    + [("?SUB_SHAPES", each("SubShape:F:6", "Nsubgroups"))]
    + each("SubBindingEnergy:F SubPotentialEnergy:F SubProfile:F:9", "Nsubgroups"),
 "lgadget3.SubIDsFile": LG3_HDR + [("NidsPrevious", "i8", ())] + each("GroupIDs:I", "Nids"),
 "pgadget3.GroupIDsFile": PG3_HDR + [("SendOffset", "i4", ())] + each("GroupIDs:I", "Nids"),
 "pgadget3.SubIDsFile": PG3_HDR + [("SendOffset", "i4", ())] + each("GroupIDs:I", "Nids"),
 "pgadget3.GroupTabFile": PG3_HDR + each("GroupLen:i4 GroupOffset:u4 GroupMass:F GroupCofM:F:3 GroupVel:F:3 GroupLenType:i4:6 GroupMassType:F:6", "Ngroups"),
 "pgadget3.SubTabFile": PG3_HDR + [("Nsubgroups", "i4", ()), ("TotNsubgroups", "i4", ())]
    + each("GroupLen:i4 GroupOffset:u4 GroupMass:F GroupPos:F:3 Halo_M_Mean200:F Halo_R_Mean200:F Halo_M_Crit200:F Halo_R_Crit200:F Halo_M_TopHat200:F Halo_R_TopHat200:F", "Ngroups")
    + [("?SO_VEL_DISPERSIONS", each("VelDisp_Mean200:F VelDisp_Crit200:F VelDisp_TopHat200:F", "Ngroups"))]
    + each("ContaminationLen:i4 ContaminationMass:F Nsubs:i4 FirstSub:i4", "Ngroups")
    + each("SubLen:i4 SubOffset:i4 SubParent:i4 SubMass:F SubPos:F:3 SubVel:F:3 SubCofM:F:3 SubSpin:F:3 SubVelDisp:F SubVmax:F SubRVmax:F SubHalfMass:F SubMostBoundID:I SubGrNr:i4", "Nsubgroups"),
 "gadget4.SubTabFile": ["["] + [(w.split(":")[0], w.split(":")[1], ()) for w in
        "Ngroups:i4 Nsubgroups:i4 Nids:i4 TotNgroups:i4 TotNsubgroups:i4 TotNids:i4 NFiles:i4 padding1:i4 Time:f8 Redshift:f8 HubbleParam:f8 BoxSize:f8 Omega0:f8 OmegaLambda:f8 flag_dp:i4 padding2:i4".split()] + ["]"]
    + [("?n>0:Ngroups", recs("GroupLen:i4 GroupMass:F GroupPos:F:3 GroupVel:F:3 GroupLenType:i4:6 GroupMassType:F:6 Halo_M_Mean200:F Halo_R_Mean200:F Halo_M_Crit200:F Halo_R_Crit200:F Halo_M_TopHat200:F Halo_R_TopHat200:F Nsubs:i4 FirstSub:i4", "Ngroups")),
       ("?n>0:Nsubgroups", recs("SubLen:i4 SubMass:F SubPos:F:3 SubVel:F:3 SubLenType:i4:6 SubMassType:F:6 SubCofM:F:3 SubSpin:F:3 SubVelDisp:F SubVmax:F SubRVmax:F SubHalfMassRad:F SubHalfMassRadType:F:6 SubMassInRad:F SubMassInRadType:F:6 SubMostBoundID:I SubGrNr:i4 SubParent:i4", "Nsubgroups"))],
 "mpa.SubDescFile": [("TotNsubhalos", "i4", ())] + each("HaloIndex:i4 SnapNum:i4", "TotNsubhalos"),
 "mpa.TreeAuxFile": [(n, "i4", ()) for n in ("TotHalos", "Totunique", "Ntrees", "TotSnaps")]
    + [("CountID_Snap", "i4", ("TotSnaps",)), ("OffsetID_Snap", "i4", ("TotSnaps",)), ("CountID_SnapTree", "i4", ("TotSnaps", "Ntrees")),
       ("OffsetID_SnapTree", "i4", ("TotSnaps", "Ntrees")), ("Nunique", "i4", ("TotHalos",)), ("OffsetID_Halo", "i4", ("TotHalos",)),
       ("IDs", "I", ("Totunique",)), ("Pos", "f4", ("Totunique", 3)), ("Vel", "f8", ("Totunique", 3))],
 "mpa.TreeFile": [("Ntrees", "i4", ()), ("Nhalos", "i4", ()), ("NPerTree", "i4", ("Ntrees",)), ("HaloList", "TREE_HALO", ("Nhalos",))],
 "rockstar.HalosFile": [("@Header/" + w.split(":")[0], w.split(":")[1], (int(w.split(":")[2]),) if w.count(":") > 1 else ()) for w in
    "magic:u8 snap:i8 chunk:i8 scale:f4 om:f4 ol:f4 h0:f4 bounds:f4:6 num_halos:i8 num_particles:i8 box_size:f4 particle_mass:f4 particle_type:i8 format_revision:i4 rockstar_version:S12 unused:S144".split()]
    + [("Halo", "ROCKSTAR_HALO", ("num_halos",)), ("IDs", "i8", ("num_particles",))],
 "velociraptor.PropertiesFile": [("@Header/ThisTask", "i4", ()), ("@Header/NProcs", "i4", ()), ("@Header/ng", "u8", ()), ("@Header/ngtot", "u8", ()),
    ("@Header/hsize", "i8", ()), "ENTRIES", ("Halo", "VELO_HALO", ("ng",))],
 "mxxl.SubDescFile": [("Nsubgroups", "i4", ())] + each("SubMostBoundID:u8 Desc_FileNr:i4 Desc_SubIndex:i4", "Nsubgroups"),
 "mxxl.FieldFile": [("#marker", 8), ("NTask", "i4", ()), ("BoxSize", "f8", ()), ("nn", "i4", ()), ("isw_slabs_per_task", "i4", ()), ("#marker", None),
    "[", ("grid", "f4", ("isw_slabs_per_task", "nn", "nn")), "]"],
}

# How each reader is called: module, class, layout, options and their defaults.
# "endian" says whether the byte order of the file is detected.
READERS = [
 # (module, class, layout, {option: default}, endian, {fixed option values not settable})
 ("virgo.formats.subfind_lgadget2", "GroupTabFile", "lgadget2.GroupTabFile", {}, True),
 ("virgo.formats.subfind_lgadget2", "GroupIDsFile", "lgadget2.GroupIDsFile", {"id_bytes": 8}, True),
 ("virgo.formats.subfind_lgadget2", "SubTabFile", "lgadget2.SubTabFile", {"id_bytes": 8}, True),
 ("virgo.formats.subfind_lgadget2", "SubIDsFile", "lgadget2.SubIDsFile", {"id_bytes": 8}, True),
 ("virgo.formats.subfind_lgadget2", "SnapshotFile", "lgadget2.SnapshotFile", {}, True),
 ("virgo.sims.millennium", "GroupTabFile", "lgadget2.GroupTabFile", {}, True),
 ("virgo.sims.millennium", "GroupIDsFile", "lgadget2.GroupIDsFile", {"id_bytes": 8}, True),
 ("virgo.sims.millennium", "SubTabFile", "lgadget2.SubTabFile", {"id_bytes": 8}, True),
 ("virgo.sims.millennium", "SubIDsFile", "lgadget2.SubIDsFile", {"id_bytes": 8}, True),
 ("virgo.sims.millennium", "SnapshotFile", "lgadget2.SnapshotFile", {}, True),
 ("virgo.formats.subfind_lgadget3", "SubTabFile", "lgadget3.SubTabFile", {"SO_VEL_DISPERSIONS": False, "SUB_SHAPES": False, "id_bytes": 4, "float_bytes": 4}, True),
 ("virgo.formats.subfind_lgadget3", "SubIDsFile", "lgadget3.SubIDsFile", {"id_bytes": 4}, True),
 ("virgo.sims.mxxl", "SubTabFile", "lgadget3.SubTabFile", {"SO_VEL_DISPERSIONS": True, "id_bytes": 8, "float_bytes": 4}, True),
 ("virgo.formats.subfind_pgadget3", "GroupIDsFile", "pgadget3.GroupIDsFile", {"id_bytes": 8, "float_bytes": 4}, True),
 ("virgo.formats.subfind_pgadget3", "SubIDsFile", "pgadget3.SubIDsFile", {"id_bytes": 8}, True),
 ("virgo.formats.subfind_pgadget3", "GroupTabFile", "pgadget3.GroupTabFile", {"id_bytes": 8, "float_bytes": 4}, True),
 ("virgo.formats.subfind_pgadget3", "SubTabFile", "pgadget3.SubTabFile", {"SO_VEL_DISPERSIONS": False, "id_bytes": 8, "float_bytes": 4}, True),
 ("virgo.sims.millennium2", "SubTabFile", "pgadget3.SubTabFile", {"SO_VEL_DISPERSIONS": False, "id_bytes": 8, "float_bytes": 4}, True),
 ("virgo.formats.subfind_gadget4", "SubTabFile", "gadget4.SubTabFile", {"id_bytes": 8}, True),
 ("virgo.sims.coco", "SubTabFile", "gadget4.SubTabFile", {"id_bytes": 8}, True),
 ("virgo.formats.mpa_trees", "SubDescFile", "mpa.SubDescFile", {}, False),
 ("virgo.formats.mpa_trees", "TreeAuxFile", "mpa.TreeAuxFile", {"id_bytes": 8}, False),
 ("virgo.formats.mpa_trees", "TreeFile", "mpa.TreeFile", {"id_bytes": 8, "SAVE_MASS_TAB": False}, False),
 ("virgo.formats.rockstar", "HalosFile", "rockstar.HalosFile", {"hydro": False}, False),
 ("virgo.formats.velociraptor", "PropertiesFile", "velociraptor.PropertiesFile", {"ikeepfof": 0}, False),
 ("virgo.sims.mxxl", "SubDescFile", "mxxl.SubDescFile", {}, False),
 ("virgo.sims.mxxl", "FieldFile", "mxxl.FieldFile", {}, True),
]

# Default datasets of the group catalogues and how their files are called
CATALOGUES = {
 "pgadget3": ("groups_%03d/subhalo_tab_%03d.%d", "pgadget3.SubTabFile"),
 "gadget4": ("groups_%03d/fof_subhalo_tab_%03d.%d", "gadget4.SubTabFile"),
}

def struct_fields(name, opts, header):
    """Fields of a structure: list of (name, type, dims, offset) and the total size"""
    if name == "TREE_HALO":
        f = list(TREE_HALO)
        if opts.get("SAVE_MASS_TAB"): f.append(("SubMassTab", "f4", (6,)))
        align = False
    elif name == "ROCKSTAR_HALO":
        rev = header["format_revision"]
        f = [x for x in ROCKSTAR_HALO if (x[0] != "halfmass_radius" or rev >= 2) and (x[0] not in ROCKSTAR_HYDRO or opts.get("hydro"))]
        align = True
    elif name == "VELO_HALO":
        f = [x for x in VELO_HALO if opts.get("ikeepfof", 0) != 0 or x[0] not in ("directhostid", "hostfofid")]
        align = False
    else:
        raise KeyError(name)
    out, off, big = [], 0, 1
    for n, t, d in f:
        t = resolve(t, opts)
        size = int(t[1:])
        if align:      # as a C compiler lays out a struct
            off += -off % size; big = max(big, size)
        out.append((n, t, d, off))
        k = size
        for x in d: k *= x
        off += k
    if align: off += -off % big
    return out, off

def resolve(t, opts):
    if t == "I": return "u%d" % opts.get("id_bytes", 8)
    if t == "F": return "f%d" % opts.get("float_bytes", 4)
    return t
