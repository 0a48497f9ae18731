"""The documented run parameters of EPREM: kind, default, unit, and aliases.

A copy of the published defaults, so that the checks do not depend on the tables
of the code under test.
"""

PARAMETERS = {
    'FailModeDump': ('Int', '1', None, []),
    'aziSunStart': ('Double', '0.0', None, []),
    'boundaryFunctAmplitude': ('Double', '1.0', '1 / (cm^2 * s * sr * (MeV/nuc))', ['J0']),
    'boundaryFunctBeta': ('Double', '1.7', '1', ['beta']),
    'boundaryFunctEcutoff': ('Double', '1.0', 'MeV', ['E0']),
    'boundaryFunctGamma': ('Double', '2.0', '1', ['gamma']),
    'boundaryFunctXi': ('Double', '1.0', '1', ['xi']),
    'boundaryFunctionInitDomain': ('Int', '1', None, []),
    'charge': ('DoubleArray', '[1.0]', 'e', []),
    'checkSeedPopulation': ('Int', '1', None, []),
    'clusterNodes': ('Int', '0', None, []),
    'dsh_hel_min': ('Double', '2.5e-4', None, []),
    'dsh_min': ('Double', '5.0e-5', None, []),
    'dumpFreq': ('Int', '1', None, []),
    'dumpOnAbort': ('Int', '0', None, []),
    'eMax': ('Double', '1000.0', 'MeV/nuc', []),
    'eMin': ('Double', '1.0', 'MeV/nuc', []),
    'epCalcStartTime': ('Double', 'config.simStartTime', None, []),
    'epEquilibriumCalcDuration': ('Double', '0.0', 'day', []),
    'epremDomain': ('Int', '0', None, []),
    'epremDomainOutputTime': ('Double', '0.0', None, []),
    'fieldAligned': ('Int', '0', None, []),
    'flowMag': ('Double', '400.0e5', 'km/s', []),
    'fluxLimiter': ('Int', '1', None, []),
    'focusingLimit': ('Double', '1.0', None, []),
    'gammaEhigh': ('Double', '0.0', '1', []),
    'gammaElow': ('Double', '0.0', '1', []),
    'idealShock': ('Int', '0', None, []),
    'idealShockInitTime': ('Double', 'config.simStartTime', 'day', []),
    'idealShockJump': ('Double', '4.0', '1', []),
    'idealShockPhi': ('Double', '0.0', 'rad', []),
    'idealShockScaleLength': ('Double', '0.0046491', 'au', []),
    'idealShockSharpness': ('Double', '1.0', '1', []),
    'idealShockSpeed': ('Double', '1500e5', 'km/s', []),
    'idealShockTheta': ('Double', '1.570796', 'rad', []),
    'idealShockWidth': ('Double', '0.0', 'rad', []),
    'idw_p': ('Double', '3.0', '1', []),
    'kperxkpar': ('Double', '0.01', '1', ['kper_kpar', 'kper/kpar', 'kper / kpar']),
    'lamo': ('Double', '1.0', 'au', ['lam0', 'lambda0']),
    'masCorRotateFake': ('Int', '0', None, []),
    'masCouple': ('Int', '0', None, []),
    'masCoupledTime': ('Int', '1', None, []),
    'masDigits': ('Int', '3', None, []),
    'masDirectory': ('String', '', None, []),
    'masHelCouple': ('Int', '0', None, []),
    'masHelDigits': ('Int', '3', None, []),
    'masHelDirectory': ('String', '', None, []),
    'masHelNumFiles': ('Int', '0', None, []),
    'masHelRadialMax': ('Double', '0.0', None, []),
    'masHelRadialMin': ('Double', '0.0', None, []),
    'masInitFromOuterBoundary': ('Int', '2', None, []),
    'masInitMonteCarlo': ('Int', '0', None, []),
    'masInitRadius': ('Double', '0.0', None, []),
    'masInitTimeStep': ('Double', '0.000011574074074', 'day', []),
    'masNumFiles': ('Int', '0', None, []),
    'masRadialMax': ('Double', '0.0', None, []),
    'masRadialMin': ('Double', '0.0', None, []),
    'masRotateSolution': ('Int', '1', None, []),
    'masStartTime': ('Double', '0.0', 'day', []),
    'masSteadyState': ('Int', '1', None, []),
    'masTriLinear': ('Int', '1', None, []),
    'masVmin': ('Double', '50.0e5', None, []),
    'mass': ('DoubleArray', '[1.0]', 'nucleon', []),
    'mfpRadialPower': ('Double', '2.0', '1', ['mfp_radial_power']),
    'mhdBAu': ('Double', '1.60e-5', 'G', []),
    'mhdDensityAu': ('Double', '8.30', 'cm^-3', []),
    'minInjectionEnergy': ('Double', '0.01', 'MeV', []),
    'nodeClusterPhi': ('Double', '0.0', None, []),
    'nodeClusterTheta': ('Double', '1.570796', None, []),
    'nodeClusterWidth': ('Double', '0.0', None, []),
    'numColumnsPerFace': ('Int', '2', None, []),
    'numEnergySteps': ('Int', '20', None, []),
    'numEpSteps': ('Int', '30', None, []),
    'numMuSteps': ('Int', '20', None, []),
    'numNodesPerStream': ('Int', 'N_PROCS', None, []),
    'numObservers': ('Int', '0', '1', []),
    'numRowsPerFace': ('Int', '2', None, []),
    'numSpecies': ('Int', '1', None, []),
    'obsPhi': ('DoubleArray', '[0]', 'rad', []),
    'obsR': ('DoubleArray', '[0]', 'au', []),
    'obsTheta': ('DoubleArray', '[0]', 'rad', []),
    'omegaSun': ('Double', '(0.004144/MAS_TIME_NORM)*TAU', 'rad * cm / (au * s)', []),
    'outputFloat': ('Int', '0', None, []),
    'outputRestart': ('Int', '0', None, []),
    'parallelFlow': ('Double', '0.0', None, []),
    'pointObserverOutput': ('Int', '0', None, []),
    'pointObserverOutputTime': ('Double', '0.0', None, []),
    'preEruptionDuration': ('Double', '0.0', 'day', []),
    'rScale': ('Double', '0.005', 'au', []),
    'rigidityPower': ('Double', 'third', '1', ['rigidity_power']),
    'saveRestartFile': ('Int', '0', None, []),
    'seedFunctionTest': ('Int', '0', None, []),
    'shockDetectPercent': ('Double', '1.0', '1', []),
    'shockInjectionFactor': ('Double', '1.0', '1', []),
    'shockSolver': ('Int', '0', None, []),
    'simStartTime': ('Double', '0.0', 'day', []),
    'simStopTime': ('Double', 'config.simStartTime + config.tDel', 'day', []),
    'streamFluxOutput': ('Int', '0', None, []),
    'streamFluxOutputTime': ('Double', '0.0', None, []),
    'subTimeCouple': ('Int', '0', None, []),
    'tDel': ('Double', '0.01041666666667', 'day', []),
    'unifiedOutput': ('Int', '1', None, []),
    'unifiedOutputTime': ('Double', '0.0', None, []),
    'unstructuredDomain': ('Int', '0', None, []),
    'unstructuredDomainOutputTime': ('Double', '0.0', None, []),
    'useAdiabaticChange': ('Int', '1', None, []),
    'useAdiabaticFocus': ('Int', '1', None, []),
    'useBoundaryFunction': ('Int', '1', None, []),
    'useDrift': ('Int', '0', None, []),
    'useEPBoundary': ('Int', '1', None, []),
    'useMasSteadyStateDt': ('Int', '1', None, []),
    'useParallelDiffusion': ('Int', '1', None, []),
    'useShellDiffusion': ('Int', '0', None, []),
    'useStochastic': ('Int', '0', None, []),
    'warningsFile': ('String', 'warningsXXX.txt', None, []),
}

LOCAL = {
    'minimum_energy': ('Double', '0.0', 'MeV', ['Emin', 'minimum energy']),
    'reference energy': ('Double', '1.0', 'MeV', ['energy0']),
    'reference radius': ('Double', '1.0', 'au', ['r0']),
}

CONSTANTS = {
    'AU': '1.495978707e13',
    'BADINT': '2147483647',
    'BADVALUE': '1.0e33',
    'C': '2.99792458e10',
    'DAY': '( TAU / (24.0 * 60.0 * 60.0)  )',
    'EV': '1.6022e-12',
    'F': '0',
    'FCONVERT': '( 1.0e30 / (C * C * C * C) )',
    'GEV': '1.6022e-3',
    'MAS_B_CONVERT': 'sqrt(4.0*PI*MAS_RHO_NORM)*MAS_LENGTH_NORM / MAS_TIME_NORM / MHD_B_NORM',
    'MAS_LENGTH_NORM': '6.96e10',
    'MAS_RHO_CONVERT': '(MAS_RHO_NORM / MP) / MHD_DENSITY_NORM',
    'MAS_RHO_NORM': '1.6726e-16',
    'MAS_TIME_CONVERT': 'MAS_TIME_NORM / (24.0 * 60.0 * 60.0)',
    'MAS_TIME_NORM': '1445.87003080685',
    'MAS_V_CONVERT': '( MAS_LENGTH_NORM / MAS_TIME_NORM ) / C',
    'MAX_STRING_SIZE': '240',
    'MEV': '1.6022e-6',
    'MHD_BATSRUS': '3',
    'MHD_B_NORM': '( sqrt(MP*MHD_DENSITY_NORM) * C )',
    'MHD_DEFAULT': '0',
    'MHD_DENSITY_NORM': '1.0',
    'MHD_ENLIL': '1',
    'MHD_LFMH': '2',
    'MHD_MAS': '4',
    'MP': '1.6726e-24',
    'MZERO': '(MP*C*C/GEV)',
    'NUM_MPI_BOUNDARY_FLDS': '2',
    'OM': '( MHD_B_NORM * Q * AU / (MP * C * C) )',
    'PI': '3.1415926535897932',
    'Q': '4.80320425e-10',
    'RSAU': '(RSUN/AU)',
    'RSUN': '6.96e10',
    'T': '1',
    'TAU': '( AU / C )',
    'THRESH': '0.025',
    'TWO_PI': '6.283185307179586',
    'VERYSMALL': '1.0e-33',
    'VOLT': '0.33333e-2',
}
