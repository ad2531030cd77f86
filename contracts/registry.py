"""Property -> contracts.  entry: harness function; bounded: None if the contract
is discharged for every input of its precondition, else the stated bound."""
def E(entry, file, **k):
    k['entry'] = entry; k['file'] = file
    return k

PROPS = {}

PROPS['C15'] = dict(level='proof', functions=['PhysicalConstants (all setters and conversions)'], entries=[
    E('vc_phys_rhotheta', 'c15_phys.cpp'),
    E('vc_phys_exner', 'c15_phys.cpp'),
    E('vc_phys_derived', 'c15_phys.cpp'),
])
PROPS['C01'] = dict(level='proof', functions=['Time::NormalizeTime', 'Time::VerifyTime', 'Time::AddTime/AddSeconds/AddDays/AddMonths/AddYears', 'Time::operator-', 'Time::GetSeconds', 'Time comparison operators', 'Time constructors'], entries=[
    E('vc_time_normalize_any', 'c01_time.cpp', split={'calendar':[1,2]}, reach=['normalised'], weight=9),
    E('vc_time_normalize_near', 'c01_time.cpp', split={'calendar':[1,2],'month':[-13,-12,-1,0,1,2,11,12,24]}, split_thorough={'month':list(range(-13,25))}, bounded='unrolled: days within one month of a valid date, months within two years'),
    E('vc_time_add', 'c01_timeops.cpp', weight=5, split={'calendar':[1,2],'operation':[0,1,2,3,4]}, reach=['added']),
    E('vc_time_addtime', 'c01_timeops.cpp', weight=6, reach=['added'], split={'calendar':[1,2]}),
    E('vc_time_addfixed', 'c01_timeops.cpp'),
    E('vc_time_construct', 'c01_timeops.cpp', split={'calendar':[1,2]}),
    E('vc_time_difference', 'c01_timeops.cpp', split={'month1':[0,1,2,3,4,5,6,7,8,9,10,11]}),
    E('vc_time_order', 'c01_timeops.cpp', split={'calendar':[1,2],'operation':[0,1,2,3,4,5]}),
    E('vc_time_order_lemma', 'c01_timeops.cpp', split={'calendar':[1,2],'month1':list(range(12))}),
    E('vc_time_mixed', 'c01_timeops.cpp'),
])
PROPS['C02'] = dict(level='proof', functions=['Time::ToDateString/ToShortString/ToLongString/ToString/ToFreeString', 'Time::FromLongString', 'Time::FromFormattedString', 'Time::GetCalendarName'], entries=[
    E('vc_text_long', 'c02_timetext.cpp', split={'calendar':[1,2]}),
    E('vc_text_digits', 'c02_timetext.cpp', split={'form':[0,1,2,3]}),
    E('vc_text_formatted', 'c02_timetext.cpp', split={'calendar':[1,2],'form':[0,1,2,3]}),
    E('vc_text_free', 'c02_timetext.cpp', split={'present':[1,2,4,8,16,3,5,10,12,20,24]}, split_thorough={'present':list(range(1,32))}),
    E('vc_text_items', 'c02_timetext.cpp', split={'items':[1,2,4,8,16,6,12,14,24,30]}, split_thorough={'items':list(range(1,32))}),
    E('vc_text_baditems', 'c02_timetext.cpp', split={'item':list(range(7))}),
    E('vc_text_reject', 'c02_timetext.cpp', split={'calendar':[1,2]}),
    E('vc_text_calname', 'c02_timetext.cpp'),
])
P6 = list(range(6))
PROPS['C07'] = dict(level='proof', functions=['CubedSphereTrans::XYZFromXYP', 'XYPFromXYP', 'RLLFromXYP', 'RLLFromABP', 'XYPFromRLL', 'ABPFromRLL', 'GnomonicElementArea', 'GnomonicGridAngle'], entries=[
    E('vc_xyz', 'c07_coords.cpp'),
    E('vc_rll_from_xyp', 'c07_coords.cpp', split={'panel': P6}, reach=['done']),
    E('vc_rll_axis', 'c07_coords.cpp', split={'panel': [4, 5]}),
    E('vc_xyp_from_rll', 'c07_coords.cpp'),
    E('vc_xyp_roundtrip', 'c07_coords.cpp', split={'panel': P6}),
    E('vc_abp', 'c07_coords.cpp', split={'panel': P6}),
    E('vc_abp_inv', 'c07_coords.cpp'),
    E('vc_xyp_from_xyp', 'c07_coords.cpp', split={'source': P6}),
    E('vc_coord_badpanel', 'c07_coords.cpp'),
    E('vc_area', 'c07_coords.cpp'),
])
PROPS['C08'] = dict(level='proof', functions=['CubedSphereTrans::VecTransABPFromRLL', 'VecTransRLLFromABP', 'CoVecTransABPFromRLL', 'CoVecTransRLLFromABP'], entries=[
    E('vc_contra_from_rll', 'c08_vectors.cpp', split={'panel': P6}, reach=['done']),
    E('vc_rll_from_contra', 'c08_vectors.cpp', split={'panel': P6}),
    E('vc_co_from_rll', 'c08_vectors.cpp', split={'panel': P6}),
    E('vc_rll_from_co', 'c08_vectors.cpp', split={'panel': P6}),
    E('vc_pole', 'c08_vectors.cpp'),
    E('vc_vec_badpanel', 'c08_vectors.cpp'),
])
PROPS['C09'] = dict(level='proof', functions=['CubedSphereTrans::RelativePanel', 'RelativeCoord', 'PanelFromDirection', 'DirectionFromPanel', 'OpposingDirection', 'DirectionFromXYP', 'VecPanelTrans and VecToP*FromP*', 'CoVecPanelTrans and CoVecToP*FromP*', 'GridCSGLL::GetOpposingDirection', 'DirectionOpposite', 'DirectionIncrement'], entries=[
    E('vc_relative_panel', 'c09_panels.cpp'),
    E('vc_direction_from_panel', 'c09_panels.cpp'),
    E('vc_relative_coord', 'c09_panels.cpp', split={'panel': P6}, reach=['outside']),
    E('vc_relative_coord_in', 'c09_panels.cpp', split={'panel': P6}),
    E('vc_opposing', 'c09_panels.cpp'),
    E('vc_direction', 'c09_panels.cpp'),
    E('vc_direction_from_xyp', 'c09_panels.cpp', split={'panel': P6}),
    E('vc_vec_panel', 'c09_panels.cpp', split={'source': P6}),
    E('vc_covec_panel', 'c09_panels.cpp', split={'source': P6}),
])
_FL = {'first': [0, 1], 'last': [0, 1]}
PROPS['C03'] = dict(level='proof', functions=['TimestepSchemeERK::Step*', 'TimestepSchemeStrang::Step', 'TimestepSchemeARS222/232/343/343b/443::Step and constructors', 'TimestepSchemeARK232::Step', 'TimestepSchemeGARK2::Step', 'TimestepSchemeSSP3332::Step', 'TimestepSchemeSplitExp::Step'], entries=[
    E('vc_' + s, 'c03_schemes.cpp') for s in ('ars222', 'ars232', 'ars343', 'ars343b', 'ars443', 'ark232', 'gark2', 'ssp3332')] + [
    E('vc_erk', 'c03_schemes.cpp', split={'method': list(range(5))}),
    E('vc_strang', 'c03_schemes.cpp', split={'method': list(range(5)), **_FL}),
    E('vc_strang_offcenter', 'c03_schemes.cpp', split={'method': list(range(5))}),
    E('vc_splitexp', 'c03_schemes.cpp', split={'substeps': [0, 1, 2, 3], 'explicit': [0, 1]}, split_thorough={'substeps': list(range(7)), 'explicit': [0, 1]}, bounded='vertical substeps per horizontal stage up to 3 (thorough: 6)'),
])
PROPS['C05'] = dict(level='proof', functions=['GaussQuadrature::GetPoints (both)', 'GaussLobattoQuadrature::GetPoints (both)', 'LegendrePolynomial::EvaluateValueAndDerivative', 'Evaluate', 'EvaluateDerivative', 'Root', 'DerivativeRoot', 'DerivativeExtendedRoot', 'EvaluateCharacteristic', 'AllRoots', 'AllDerivativeRoots'], entries=[
    E('vc_gauss', 'c05_quadrature.cpp'),
    E('vc_lobatto', 'c05_quadrature.cpp'),
    E('vc_gauss_high', 'c05_quadrature.cpp', split={'points': list(range(11, 17))}, split_thorough={'points': list(range(11, 41))}, bounded='11 to 16 points (thorough: 40)'),
    E('vc_lobatto_high', 'c05_quadrature.cpp', split={'points': list(range(11, 17))}, split_thorough={'points': list(range(11, 41))}, bounded='11 to 16 points (thorough: 40)'),
    E('vc_gauss_interval', 'c05_quadrature.cpp'),
    E('vc_lobatto_interval', 'c05_quadrature.cpp'),
    E('vc_quad_reject', 'c05_quadrature.cpp'),
    E('vc_legendre', 'c05_quadrature.cpp'),
    E('vc_legendre_high', 'c05_quadrature.cpp', split={'degree': list(range(9, 15))}, split_thorough={'degree': list(range(9, 25))}, bounded='degrees 9 to 14 (thorough: 24)'),
    E('vc_legendre_roots', 'c05_quadrature.cpp'),
    E('vc_legendre_droots', 'c05_quadrature.cpp'),
    E('vc_legendre_allroots', 'c05_quadrature.cpp', split={'degree': list(range(1, 17))}, split_thorough={'degree': list(range(1, 41))}, bounded='degrees 1 to 16 (thorough: 40)'),
    E('vc_legendre_characteristic', 'c05_quadrature.cpp', split={'degree': list(range(1, 9))}),
])
_N = lambda a, b: {'nodes': list(range(a, b + 1))}
PROPS['C06'] = dict(level='proof', functions=['PolynomialInterp::LagrangianPolynomialCoeffs', 'DiffLagrangianPolynomialCoeffs', 'DiffDiffLagrangianPolynomialCoeffs', 'DiffDiffDiffLagrangianPolynomialCoeffs', 'Interpolate', 'FluxCorrectionFunction::GetDerivatives', 'GridGLL::Initialize (horizontal operators)'], entries=[
    E('vc_lagrange', 'c06_interp.cpp', split=_N(1, 8), split_thorough=_N(1, 10), bounded='up to 8 nodes (thorough: 10), any distinct positions'),
    E('vc_interpolate', 'c06_interp.cpp', split=_N(1, 8), split_thorough=_N(1, 10), bounded='up to 8 nodes (thorough: 10), any distinct positions'),
    E('vc_dlagrange', 'c06_interp.cpp', split=_N(1, 6), split_thorough=_N(1, 7), bounded='up to 6 nodes (thorough: 7), any distinct positions'),
    E('vc_ddlagrange', 'c06_interp.cpp', split=_N(1, 6), split_thorough=_N(1, 6), bounded='up to 6 nodes (thorough: 6), any distinct positions'),
    E('vc_dddlagrange', 'c06_interp.cpp', split=_N(1, 5), split_thorough=_N(1, 6), bounded='up to 5 nodes (thorough: 6), any distinct positions'),
    E('vc_fluxcorrection', 'c06_interp.cpp', split={'order': list(range(1, 9)), 'type': [1, 2, 3]}),
    E('vc_fluxcorrection_nodes', 'c06_interp.cpp', split={'order': [2, 3, 4, 5]}),
    E('vc_gll_operators', 'c06_interp.cpp', split={'order': list(range(2, 11))}),
])
_I4 = {'instances': [1, 2, 3, 4]}
PROPS['C04'] = dict(level='proof', functions=['Grid::CopyData/LinearCombineData/ZeroData/AddReferenceState', 'GridPatch::CopyData/LinearCombineData/ZeroData/AddReferenceState', 'DataArray4D::Assign/Scale/AddProduct/Zero'], entries=[
    E('vc_state_combine', 'c04_state.cpp', split={'instances': [4], 'tracerinstances': [1], 'coefficients': [1, 2, 3, 4], 'target': [0, 1, 2, 3]}, bounded='4 instances, fixed array extents'),
    E('vc_tracer_combine', 'c04_state.cpp', split={'instances': [1], 'tracerinstances': [4], 'coefficients': [1, 2, 3, 4]}, bounded='4 instances, fixed array extents'),
    E('vc_state_copy', 'c04_state.cpp', split={'instances': [1, 4], 'tracerinstances': [1, 4]}, bounded='4 instances, fixed array extents'),
    E('vc_state_zero', 'c04_state.cpp', split={'instances': [1, 4], 'tracerinstances': [1, 4]}, bounded='4 instances, fixed array extents'),
    E('vc_state_addref', 'c04_state.cpp', split={'instances': [1, 4], 'tracerinstances': [1]}, bounded='4 instances, fixed array extents'),
    E('vc_state_reject', 'c04_state.cpp', split={'instances': [1, 3], 'tracerinstances': [1, 3], 'operation': [0, 1, 2, 3]}, bounded='up to 4 instances, fixed array extents'),
    E('vc_state_toomany', 'c04_state.cpp', split={'instances': [1, 3], 'tracerinstances': [1, 3]}, bounded='up to 4 instances, fixed array extents'),
])
_T14 = list(range(7))
_X14 = [dict(layout=[0], order=[4], ranks=[1, 2, 3], staggering=[0, 1], type=[0, 1], lifo=[0, 1], again=[1]),
        dict(layout=[0], order=[2, 3], ranks=[2], staggering=[1], type=_T14, lifo=[1], again=[0]),
        dict(layout=[1], order=[2, 3], ranks=[1, 3], staggering=[0], type=_T14, lifo=[0], again=[0]),
        dict(layout=[2], order=[2, 4], ranks=[3], staggering=[1], type=_T14, lifo=[1], again=[0])]
_Y14 = [dict(order=[2], ranks=[1, 2], patches=[1, 2, 3], elementsA=[1], elementsB=[1, 2], periodicA=[0, 1], periodicB=[0, 1], type=[0], staggering=[1], lifo=[0], again=[1]),
        dict(order=[4], ranks=[3], patches=[4], elementsA=[1], elementsB=[1], periodicA=[1], periodicB=[0, 1], type=_T14, staggering=[0, 1], lifo=[0, 1], again=[0])]
PROPS['C14'] = dict(level='proof', functions=['Grid::Exchange', 'GridPatch::PackExchangeBuffer/UnpackExchangeBuffer', 'ExchangeBuffer::Pack/Unpack/Reset/GetMessageSize', 'ExchangeBufferRegistry::Register/Allocate/PrepareExchange/AttachRecvBuffers/Send/WaitReceive/WaitSend', 'Grid::InitializeConnectivity', 'GridPatch::InitializePatchDataLocal', 'GridCSGLL/GridCartesianGLL::GetPatchFromCoordinateIndex/GetOpposingDirection/ApplyDefaultPatchLayout', 'Grid::DistributePatches'], entries=[
    E('vc_exchange_cs', 'c14_exchange.cpp', split=_X14, split_thorough=[dict(layout=[0, 1, 2], order=[2, 3, 4], ranks=[1, 2, 3], staggering=[0, 1], type=_T14, lifo=[0, 1], again=[1])], bounded='6, 10 and 24 patches, 1 to 3 ranks, orders 2 to 4, fixed number of levels'),
    E('vc_exchange_cart', 'c14_exchange.cpp', split=_Y14, split_thorough=[dict(order=[2, 3, 4], ranks=[1, 2, 3], patches=[1, 2, 3, 4], elementsA=[1], elementsB=[1, 2], periodicA=[0, 1], periodicB=[0, 1], type=[0, 1, 4], staggering=[0, 1], lifo=[0, 1], again=[1])], bounded='1 to 4 patches, 1 to 3 ranks, orders 2 and 4, fixed number of levels'),
    E('vc_exchange_refuse', 'c14_exchange.cpp', split={'what': list(range(9))}),
    E('vc_exchange_attach', 'c14_exchange.cpp', split={'what': list(range(5))}),
])
_X12 = [dict(layout=[0], order=[4], ranks=[1], type=[0], equations=[2, 3], staggering=[0]),
        dict(layout=[0], order=[2, 3], ranks=[1], type=[0, 1, 2, 3, 4], equations=[3], staggering=[1]),
        dict(layout=[1, 2], order=[2], ranks=[1], type=[0, 4], equations=[3], staggering=[0]),
        dict(layout=[2], order=[3], ranks=[2], type=[1, 2, 3], equations=[3], staggering=[0])]
_Y12 = [dict(order=[2, 4], ranks=[1, 2], patches=[1, 2, 3], elementsA=[1], elementsB=[1, 2], type=[0], staggering=[0, 1]),
        dict(order=[3], ranks=[1], patches=[2], elementsA=[2], elementsB=[1, 2], type=[1, 2, 3, 4], staggering=[0])]
PROPS['C12'] = dict(level='proof', functions=['GridCSGLL::ApplyDSS', 'GridCartesianGLL::ApplyDSS', 'GridPatchCSGLL::TransformHaloVelocities/TransformTopographyDeriv', 'GridPatchCSGLL::InitializeCoordinateData', 'GridPatch::GetNeighborPanel', 'GridPatchCartesianGLL::ApplyBoundaryConditions', 'Grid::Exchange'], entries=[
    E('vc_dss_cs', 'c12_dss.cpp', split=_X12, bounded='6, 10 and 24 patches, orders 2 to 4, two levels'),
    E('vc_dss_cart', 'c12_dss.cpp', split=_Y12, bounded='1 to 3 patches, orders 2 to 4, two levels'),
    E('vc_dss_walls_inner', 'c12_dss.cpp', split=[dict(_Y12[0], staggering=[1], ranks=[1], walls=[0, 1, 2])], bounded='1 to 3 patches, orders 2 and 4, two levels'),
    E('vc_dss_walls', 'c12_dss.cpp', split=[dict(order=[2], ranks=[1], patches=[1], elementsA=[1], elementsB=[1], type=[0, 1], staggering=[0, 1], walls=[0, 1, 2])], bounded='1 patch, order 2'),
])
_SW11 = [dict(method=[0], order=[2, 3, 4], elementsA=[2], tracers=[2], diffusion=[1]), dict(method=[0], order=[4], elementsA=[1], tracers=[0], diffusion=[0]), dict(method=[1], order=[4], elementsA=[2], tracers=[0], diffusion=[1])]
_NH11 = [dict(method=[0], order=[2], levels=[2, 3], elementsA=[2], tracers=[2], staggering=[0, 1], diffusion=[1], xz=[0]),
         dict(method=[0], order=[3], levels=[2], elementsA=[1], tracers=[1], staggering=[0, 1], diffusion=[0], xz=[1]),
         dict(method=[0], order=[4], levels=[2], elementsA=[1], tracers=[1], staggering=[0, 1], diffusion=[0, 1], xz=[0]),
         dict(method=[1], order=[4], levels=[2, 3], elementsA=[1], tracers=[0], staggering=[1], diffusion=[0, 1], xz=[0])]
_NH11T = [dict(method=[0], order=[2, 3, 4], levels=[2, 3], elementsA=[1, 2], tracers=[0, 2], staggering=[0, 1], diffusion=[0, 1], xz=[0, 1]),
         dict(method=[1], order=[4], levels=[2, 3], elementsA=[1, 2], tracers=[0], staggering=[1], diffusion=[0, 1], xz=[0])]
PROPS['C11'] = dict(level='proof', functions=['HorizontalDynamicsFEM::StepExplicit/StepShallowWater/StepNonhydrostaticPrimitive', 'HorizontalDynamicsFEMV2::StepExplicit/StepShallowWater/StepNonhydrostaticPrimitive', 'GridGLL::InterpolateNodeToREdge/InterpolateREdgeToNode/DifferentiateNodeToNode'], entries=[
    E('vc_sw_step', 'c11_hdyn.cpp', split=_SW11, split_thorough=[dict(method=[0], order=[2, 3, 4], elementsA=[1, 2], tracers=[0, 1, 2], diffusion=[0, 1]), _SW11[2]], bounded='orders 2 to 4, one and two elements'),
    E('vc_nh_step', 'c11_hdyn.cpp', split=_NH11, split_thorough=_NH11T, bounded='orders 2 to 4, two and three levels, one and two elements'),
    E('vc_hdyn_refuse', 'c11_hdyn.cpp'),
    E('vc_v2_tracers', 'c11_hdyn.cpp'),
])
_F13 = [dict(method=[0, 2, 3], order=[2], patch=[0], tracer=[1], elementA=[1], elementB=[0], level=[1], first=[0]),
        dict(method=[0, 2, 3], order=[3], patch=[1], tracer=[0], elementA=[0], elementB=[1], level=[0], first=[1]),
        dict(method=[0, 1, 2, 3], order=[4], patch=[1], tracer=[1], elementA=[1], elementB=[1], level=[0], first=[3])]
_C13 = [dict(method=[0, 1, 2], levels=[2, 4], patch=[1], tracer=[1], i=[1], j=[4]), dict(method=[0, 1, 2], levels=[3], patch=[0], tracer=[0], i=[4], j=[2])]
PROPS['C13'] = dict(level='proof', functions=['HorizontalDynamicsFEM/HorizontalDynamicsFEMV2/HighSpeedDynamics/SplitExplicitDynamics::FilterNegativeTracers', 'VerticalDynamicsFEM/VerticalDynamicsFEMV2/VerticalDynamicsSchur::FilterNegativeTracers'], entries=[
    E('vc_filter_element', 'c13_filter.cpp', split=_F13, split_thorough=[dict(method=[0, 1, 2, 3], order=[4], patch=[0, 1], tracer=[0, 1], elementA=[0, 1], elementB=[0, 1], level=[0], first=[0, 2]), dict(method=[0, 2, 3], order=[2, 3], patch=[0, 1], tracer=[0, 1], elementA=[0, 1], elementB=[0, 1], level=[1], first=[0, 2])], bounded='orders 2 to 4; at orders 3 and 4 three nodes of either sign at a time'),
    E('vc_filter_column', 'c13_filter.cpp', split=_C13, split_thorough=dict(method=[0, 1, 2], levels=[2, 3, 4], patch=[0, 1], tracer=[0, 1], i=[1, 2, 3, 4], j=[1, 4]), bounded='two to four levels'),
])

_S16 = [dict(method=[0], order=[2], equations=[1], elementsA=[2], elementsB=[1], tracers=[2], staggering=[0, 1, 2], levels=[2], component=[-1], local=[1], removereference=[0], xz=[0], reflength=[2]),
        dict(method=[1], order=[4], equations=[1], elementsA=[1], elementsB=[1], tracers=[1], staggering=[0, 1, 2], levels=[2], component=[-1], local=[1], removereference=[0], xz=[0], reflength=[2]),
        dict(method=[0], order=[3], equations=[1], elementsA=[1], elementsB=[2], tracers=[1], staggering=[1, 2], levels=[3], component=[0, 2, 3, 4], local=[0, 1], removereference=[1], xz=[1], reflength=[0]),
        dict(method=[1], order=[4], equations=[1], elementsA=[1], elementsB=[1], tracers=[1], staggering=[1], levels=[2], component=[2, 3, 4], local=[0], removereference=[1], xz=[0], reflength=[1]),
        dict(method=[0, 1], order=[4], equations=[2], elementsA=[2], elementsB=[1], tracers=[1], staggering=[0], component=[-1, 2], local=[1], removereference=[0], xz=[0], reflength=[0, 2])]
PROPS['C16'] = dict(level='proof', functions=['HorizontalDynamicsFEM/V2::ApplyScalarHyperdiffusion', 'HorizontalDynamicsFEM/V2::ApplyVectorHyperdiffusion', 'HorizontalDynamicsFEM/V2::ApplyRayleighFriction', 'HorizontalDynamicsFEM/V2::StepAfterSubCycle', 'GridPatchCartesianGLL/GridPatchCSGLL::ComputeCurlAndDiv/ComputeVorticityDivergence', 'Grid::CopyData/ZeroData'], entries=[
    E('vc_scalar_diffusion', 'c16_diffusion.cpp', split=_S16, bounded='orders 2 to 4, one and two elements'),
    E('vc_laplacian_lemmas', 'c16_diffusion.cpp', split=dict(order=[2, 3, 4])),
    E('vc_diffusion_refuse', 'c16_diffusion.cpp'),
    E('vc_curl_div', 'c16_diffusion.cpp', split=dict(sphere=[0, 1], order=[2, 3, 4]), bounded='orders 2 to 4, one and two elements'),
    E('vc_vector_diffusion', 'c16_diffusion.cpp', split=[dict(method=[0], order=[2], equations=[1, 2], elementsA=[2], elementsB=[1], source=[0, 1, 2], xz=[0, 1], local=[1], reflength=[2]), dict(method=[0], order=[3], equations=[1], elementsA=[1], elementsB=[2], source=[0, 2], xz=[0], local=[0, 1], reflength=[1]), dict(method=[0, 1], order=[4], equations=[1, 2], elementsA=[1], elementsB=[1], source=[1, 2], xz=[0], local=[1], reflength=[0, 2])], bounded='orders 2 to 4, one and two elements'),
    E('vc_friction', 'c16_diffusion.cpp', split=dict(method=[0, 1], equations=[1, 2])),
    E('vc_after_subcycle', 'c16_subcycle.cpp', split=dict(method=[0, 1], order=[0, 2, 4])),
    E('vc_after_refuse', 'c16_subcycle.cpp'),
])
PROPS['C10'] = dict(level='proof', functions=['GridPatchCSGLL/GridPatchCartesianGLL::InitializeCoordinateData', 'GridPatchCSGLL/GridPatchCartesianGLL::EvaluateTopography', 'GridPatchCSGLL/GridPatchCartesianGLL::EvaluateGeometricTerms', 'GridSpacingGaussLobattoRepeated::GetNode/GetEdge', 'GridGLL::InitializeVerticalCoordinate', 'Grid::InitializeVerticalCoordinate', 'VerticalStretchUniform/Cubic/PiecewiseLinear'], entries=[
    E('vc_coordinates', 'c10_geometry.cpp', split=dict(sphere=[0, 1], order=[2, 3, 4]), bounded='orders 2 to 4, four grids'),
    E('vc_topography', 'c10_geometry.cpp', split=[dict(sphere=[0], order=[2, 3, 4]), dict(sphere=[1], layout=[0, 1, 2], order=[2, 3, 4])], bounded='orders 2 to 4, four grids'),
    E('vc_topography_refuse', 'c10_geometry.cpp', split=dict(order=[2, 3])),
    E('vc_decay', 'c10_geometry.cpp'),
    E('vc_geometry', 'c10_geometry.cpp', split=[dict(sphere=[0], order=[2, 3, 4], layout=[0, 1], xz=[0, 1]), dict(sphere=[1], order=[2, 4], layout=[0], panel=[0, 1, 2, 3, 4, 5], levels=[2], staggering=[1]), dict(sphere=[1], order=[3], layout=[2], panel=[1, 5], levels=[3], staggering=[0, 2])], bounded='orders 2 to 4, four grids'),
    E('vc_geometry_refuse', 'c10_geometry.cpp', split=dict(order=[2])),
    E('vc_vertical', 'c10_geometry.cpp', split=dict(sphere=[0, 1], shallow=[0, 1], order=[1, 2, 3, 4])),
    E('vc_vertical_refuse', 'c10_geometry.cpp'),
    E('vc_stretch', 'c10_geometry.cpp'),
])
PROPS['C17'] = dict(level='proof', functions=['GridPatchCSGLL/GridPatchCartesianGLL::EvaluateTestCase', 'GridPatchCSGLL/GridPatchCartesianGLL::EvaluateTestCase_Perturbation', 'Grid/GridGLL::EvaluateTestCase', 'EquationSet::ConvertComponents', 'CubedSphereTrans::CoVecTransABPFromRLL'], entries=[
    E('vc_initial', 'c17_initial.cpp', split=[dict(sphere=[1], order=[2, 4], layout=[0], shallow=[1], diffusion=[0, 1, 2], instance=[0]), dict(sphere=[1], order=[2], layout=[0], shallow=[0], tracers=[0, 2], staggering=[1], diffusion=[1], instance=[1], rayleigh=[0, 1]), dict(sphere=[1], order=[4], layout=[0], shallow=[0], tracers=[2], staggering=[0], diffusion=[0], instance=[0], rayleigh=[1], reference=[2]), dict(sphere=[1], order=[2], layout=[2], shallow=[0], tracers=[1], staggering=[0], diffusion=[2], instance=[1], rayleigh=[1], reference=[1]), dict(sphere=[0], order=[2, 3, 4], layout=[0, 1], tracers=[0, 1], staggering=[0, 1], diffusion=[0], instance=[0, 1], rayleigh=[1])], bounded='orders 2 to 4, four grids'),
    E('vc_perturbation', 'c17_initial.cpp', split=[dict(sphere=[1], order=[2], layout=[0], instance=[0, 1]), dict(sphere=[1], order=[4], layout=[0], part=[3]), dict(sphere=[0], order=[2, 3])], bounded='orders 2 to 4, four grids'),
])
PROPS['C18'] = dict(level='proof', functions=['Model::Go', 'Model::SubStep', 'OutputManager::IsOutputNeeded/PerformOutput/ManageOutput/InitialOutput/FinalOutput/GetFileName', 'WorkflowProcess::Initialize/IsReady/Perform'], entries=[
    E('vc_run', 'c18_run.cpp', split=dict(restart=[0, 1], files=[0, 1, 2]), reach=['finished']),
    E('vc_substep', 'c18_run.cpp'),
    E('vc_run_refuse', 'c18_run.cpp'),
])
PROPS['C19'] = dict(level='proof', functions=['OutputManagerComposite::OpenFile/Output/CloseFile/Input', 'DataContainer::Allocate/GetTotalByteSize/PushDataChunk', 'DataStruct/DataArray1D-4D::AttachToData/GetByteSize', 'Model::SetGridFromRestartFile/SetTestCase', 'Grid::DefineParameters/InitializeDataLocal/DistributePatches/Initialize/InitializeExchangeBuffersFromActivePatches', 'GridGLL::Initialize', 'GridPatch::InitializeDataLocal'], entries=[
    E('vc_restart', 'c19_restart.cpp', split=dict(sphere=[0, 1], writers=[1, 2, 3], readers=[1, 2, 3]), reach=['done']),
    E('vc_restart_refuse', 'c19_restart.cpp', split=dict(what=[0, 1, 2, 3, 4, 5, 6, 7, 8]), reach=['done']),
    E('vc_output_refuse', 'c19_restart.cpp', reach=['done']),
    E('vc_settestcase', 'c19_restart.cpp', reach=['done']),
])
