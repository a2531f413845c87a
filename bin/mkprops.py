import json,re,os
def where(cls,f):
    fn={'Empirical':'Emp','Permeability':'Perm'}.get(cls,cls)+'.py'
    for i,l in enumerate(open('/repo/rockphypy/'+fn),1):
        if re.match(r'\s+def %s\('%re.escape(f),l): return 'rockphypy/%s:%d'%(fn,i)
    raise SystemExit((cls,f))
P=[]
def prop(id,title,st,over,q,why,mech,files=None):
    m=[dict(name=n,where=where(c,f)) for n,c,f in mech]
    fs=files or sorted({x['where'].split(':')[0] for x in m})
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=fs,mechanism=m,observe_at=['return value of the public call'],hook_needed=None)))
ALLF=['rockphypy/'+f for f in 'AVO.py Anisotropy.py BW.py EM.py Emp.py Fluid.py GM.py Perm.py QI.py utils.py'.split()]
T="The repository's 80 tests call each function once, on one or two hand-picked inputs, most of them scalars; "
prop('C01','Every public operation is a pure function of its arguments',
 "The result of every public operation depends on its arguments only: it is the result a fresh interpreter gives for the same call, whatever calls, failures or differently shaped inputs came before. A call never changes an array it was given, a global setting (floating-point error state, random state, plotting defaults, working directory), or a result it returned earlier.",
 ['histories','inputs'],'all histories of calls of the public operations (fresh, repeated, slightly changed, reordered, element-wise, far and special arguments), in every order',
 T+'none makes a second call and compares, none looks at the arguments afterwards; a cache, a mutable default or an in-place operation passes them all.',
 [('iterates on private copies','EM','Berryman_sc'),('shape factors without touching alpha','EM','PQ_vectorize'),('bisection on local state','Empirical','yu_segment_trend'),('in-place refinement of a local','GM','contactcement'),('instance data only read','QI','estimate_cem')],ALLF)
prop('C02','Array calls agree with calls on their elements, in any order and container',
 "An operation documented to accept arrays returns, position by position, what it returns for each element alone; reversing the elements reverses the result. The same elements in a two-dimensional array or in a pandas Series with any index give the same values.",
 ['inputs'],'all array lengths (1 to 1500), element positions, orders of the elements, mixtures of scalar and array arguments, and containers',
 T+'arrays longer than a few elements are not tried and no test relates an array call to a scalar call.',
 [('lower and upper segment per element','Empirical','yu_segment_trend'),('segments per element','Empirical','ramm_porosity_segment'),('per-element matrix','QI','matrix_modulus'),('per-element root of the contact equation','GM','Digby'),('elementwise bounds','EM','HS'),('frequency axis','Fluid','White_Dutta_Ode')],ALLF)
prop('C03','Elastic bounds of two-phase and multi-phase mixtures',
 "For every composition, the Voigt, Reuss and Hill averages, the upper and lower Hashin-Shtrikman bounds and the critical-porosity averages returned are the ones defined by the mineral fractions and moduli. In particular they coincide with the end members at fractions 0 and 1, for equal phases and for a fluid phase, and the Hashin-Shtrikman bounds lie between Reuss and Voigt.",
 ['inputs'],'all fractions in [0,1], all moduli (including zero shear modulus and equal phases), any number of phases, both bounds',
 T+'one composition each.',[('weighted means','EM','VRH'),('two-phase bound','EM','HS'),('critical porosity','EM','cripor'),('critical porosity, Reuss','EM','cripor_reuss')])
prop('C04','Gassmann substitution and saturated velocities',
 "The saturated modulus returned for a dry frame, mineral, fluid and porosity satisfies Gassmann's relation K/(K0-K) = Kdry/(K0-Kdry) + Kf/(phi(K0-Kf)), and the shear modulus is unchanged. Substituting one fluid by another, for moduli, for velocities and for the P-wave-modulus approximation, is drying with the first and saturating with the second, with the density changed by phi times the density difference.",
 ['inputs','histories'],'all frames, minerals, fluids (gas to brine), porosities including 0, and sequences of substitutions',
 T+'one fluid pair, no chain of substitutions, no gas, no zero porosity.',[('dry to saturated','Fluid','Gassmann'),('fluid 1 to fluid 2','Fluid','Gassmann_sub'),('velocities and density','Fluid','vels'),('from velocities','Fluid','Gassmann_vels'),('P modulus only','Fluid','Gassmann_approx')])
prop('C05','Anisotropic (Brown-Korringa) fluid substitution',
 "For every orthotropic compliance, mineral, fluid and porosity, saturating or drying returns the compliance of the Brown-Korringa relation, symmetric and with shear terms unchanged. Substituting fluid 1 by fluid 2 equals drying with fluid 1 and saturating with fluid 2, returned as mutually inverse stiffness and compliance; for an isotropic frame it agrees with Gassmann.",
 ['inputs','histories'],'all orthotropic 6x6 compliances/stiffnesses, minerals, fluids and porosities, chains of substitutions',
 T+'one transversely isotropic matrix.',[('dry to saturated','Fluid','Brown_Korringa_dry2sat'),('saturated to dry','Fluid','Brown_Korringa_sat2dry'),('substitution','Fluid','Brown_Korringa_sub')])
prop('C06','Conversions between elastic moduli and velocities',
 "P and S velocity (m/s) follow from bulk and shear modulus (GPa) and density (g/cm3) as sqrt((K+4G/3)/rho) and sqrt(G/rho), and the conversion back from velocities returns the same moduli. Poisson's ratio and Lame's first parameter are (3K-2G)/(2(3K+G)) and K-2G/3.",
 ['inputs'],'all moduli, densities and velocities, scalars and arrays, fluids (G = 0)',
 T+'one value each.',[('velocities','utils','V'),('moduli','utils','M_from_V'),('Poisson ratio','utils','poi'),('Lame','utils','lame')])
prop('C07','Stiffness matrices have the symmetry of the medium and rotate as tensors',
 "The 6x6 matrices built from independent constants (isotropic, VTI, HTI, orthotropic, VTI compliance, VTI from five velocities) are symmetric and carry every entry the symmetry class and the given constants or velocities imply. Rotating a stiffness matrix about an axis gives the fourth-rank tensor transformation of it for every angle, and rotations compose.",
 ['inputs','histories'],'all constants of each symmetry class, all angles, both axes, sequences of rotations',
 T+'one matrix each, one angle.',[('HTI','utils','write_HTI_matrix'),('VTI','utils','write_VTI_matrix'),('VTI compliance','utils','write_VTI_compliance'),('orthotropic','utils','write_matrix'),('isotropic','utils','write_iso'),('from velocities','utils','v_to_c_VTI'),('rotation','Anisotropy','Bond_trans')])
prop('C08','Transversely isotropic velocities, Thomsen parameters, Backus average',
 "Thomsen and Tsvankin parameters and the weak-anisotropy velocities are those defined by the stiffnesses; exact phase velocities in HTI and VTI media are the roots of the Christoffel equation for every direction. The Backus average of any stack of layers, given as fractions or as a log with depths, is the exact long-wave equivalent and is independent of the order and subdivision of the layers.",
 ['inputs'],'all stiffnesses of the class, all angles (-180 to 360), stacks of 1 to 40 layers with any thicknesses',
 T+'two layers, one angle.',[('weak anisotropy','Anisotropy','Thomsen'),('orthorhombic parameters','Anisotropy','Thomsen_Tsvankin'),('Backus','Anisotropy','Backus'),('Backus of a log','Anisotropy','Backus_log'),('HTI phase velocities','Anisotropy','vel_azi_HTI'),('VTI phase velocities','Anisotropy','vel_azi_VTI')])
prop('C09','Crack models',
 "Hudson's (single set, random, orthogonal sets, cone), Eshelby-Cheng's, Walsh-Kachanov's dilute and O'Connell-Budiansky's (dry and fluid-filled) effective stiffnesses of a cracked solid are those of the published model, and reduce to the uncracked solid at zero crack density. The orientation averages are mutually consistent (three equal orthogonal or random sets, cone at 0 degrees equals the aligned set) and O'Connell-Budiansky's solution satisfies both self-consistency equations with stable moduli.",
 ['inputs','configurations'],'all solids, crack fillings (dry, fluid, weak solid), aspect ratios, crack densities, orientations, orders and axes',
 T+'one crack set each, compared with a recorded number.',[('aligned cracks','EM','hudson'),('random cracks','EM','hudson_rand'),('orthogonal sets','EM','hudson_ortho'),('cone','EM','hudson_cone'),('Eshelby-Cheng','EM','Eshelby_Cheng'),('dilute','EM','Dilute_crack'),('self-consistent dry','EM','OConnell_Budiansky'),('self-consistent fluid-filled','EM','OConnell_Budiansky_fl'),('crack porosity','utils','crack_por')])
prop('C10','Inclusion models: shape factors, self-consistent and differential schemes',
 "Geometric factors P and Q of spheroidal inclusions, the self-consistent, Mori-Tanaka, dilute and Swiss-cheese estimates and the differential effective medium return the solution of their defining equations: the self-consistent moduli are a fixed point, the differential moduli follow the ODE from the matrix at zero concentration. With no inclusions, or inclusions equal to the matrix, every one of them returns the matrix.",
 ['inputs'],'all phases (empty, fluid, solid), aspect ratios (oblate, sphere), concentrations, numbers of phases and iterations',
 T+'one composite each.',[('P and Q','EM','PQ'),('P and Q of many phases','EM','PQ_vectorize'),('self-consistent','EM','Berryman_sc'),('DEM','EM','Berryman_DEM'),('dilute pores','EM','Swiss_cheese'),('self-consistent pores','EM','SC'),('dilute','EM','SC_dilute'),('iterated','EM','SC_flex'),('Mori-Tanaka','EM','MT_average')])
prop('C11','Granular end members and unconsolidated sand trends',
 "Hertz-Mindlin, Walton and Digby moduli of a dry pack are those of the contact model, increase with pressure as its power law and with the fraction of rough contacts; Thomas-Stieber porosities, soft-sand, stiff-sand, shaly-sand and silty-shale trends are the modified Hashin-Shtrikman curves between their end members. Each trend reaches the mineral at zero porosity and the end member at the critical porosity (or pure clay/quartz at the ends of the shale trends).",
 ['inputs'],'all minerals, porosities from 0 to critical, stresses from 0, coordination numbers, slip fractions, clay contents; scalars and arrays',
 T+'one pressure and porosity each.',[('Hertz-Mindlin','GM','hertzmindlin'),('Walton','GM','Walton'),('Digby','GM','Digby'),('soft sand','GM','softsand'),('stiff sand','GM','stiffsand'),('Thomas-Stieber','GM','ThomasStieber'),('silty shale','GM','silty_shale'),('shaly sand','GM','shaly_sand')])
prop('C12','Cemented-sand models',
 "Contact-cement moduli are Dvorkin's for both cement schemes; constant-cement, modified-upper-bound and patchy-cement (constant and varying) moduli are the bounds and mixtures of their end members. Each reduces to its end members at the ends of its range (no cement beyond phi_b, mineral at zero porosity, patchy fraction 0 and 1), and the stress-diluting weight is k(1-s/s0)^m, never negative or NaN.",
 ['inputs','configurations'],'all minerals and cements, porosities, cement volumes, coordination numbers, both schemes, stiff and soft patches; scalars and arrays',
 T+'one configuration each.',[('contact cement','GM','contactcement'),('constant cement','GM','constantcement'),('modified upper bound','GM','MUHS'),('patchy cement','GM','pcm'),('varying patchy cement','GM','vpcm'),('diluting','GM','diluting')])
prop('C13','Reflection coefficients against angle and azimuth',
 "The reflectivities returned by Aki-Richards, exact Zoeppritz, AVO attributes, HTI and orthorhombic approximations are those of the published equations for every pair of half-spaces, every angle and azimuth, laid out as documented. At normal incidence they agree with each other, with no contrast they vanish, and HTI results are even and 180-degree periodic in azimuth.",
 ['inputs'],'all pairs of media, angles up to below critical, azimuths from -180 to 360, numbers of layers and angles',
 T+'one interface, one or two angles.',[('HTI','AVO','AVO_HTI'),('weak contrast','AVO','Aki_Richards'),('exact','AVO','zoeppritz'),('attributes','AVO','AVO_abe'),('orthorhombic','AVO','AVO_ortho')])
prop('C14','Elastic impedances',
 "The five elastic impedances (PP; PS and SP, SS and the SV/SH variants returned) of every sample and angle are the products of powers of velocities and density prescribed by the model, laid out samples by angles. With normalisation the references are the means of the whole log, so the value of a sample depends on the log through these means only; without it each sample stands alone.",
 ['inputs','configurations'],'all logs (1 to 20 samples), angles, background ratios, integer and float logs, with and without normalisation',
 T+'one sample at one angle.',[('impedances','AVO','EI_ref')])
prop('C15','Dynamic poroelasticity: Biot, Geertsma-Smit, White',
 "Velocities and attenuations of the three Biot waves at every frequency are the roots of Biot's dispersion equation with the dynamic-permeability correction; the high-frequency limits, the Geertsma-Smit approximations and the White-Dutta-Ode patchy-saturation velocity, attenuation and complex modulus are those of their equations. Low-frequency limits agree with Gassmann and low-frequency velocities lie between the two limits.",
 ['inputs'],'all frames, fluids, permeabilities, tortuosities (integers included) and frequencies over six decades',
 T+'one rock at a few frequencies.',[('Biot','Fluid','Biot'),('Biot high frequency','Fluid','Biot_HF'),('Geertsma-Smit high','Fluid','Geertsma_Smit_HF'),('Geertsma-Smit low','Fluid','Geertsma_Smit_LF'),('White','Fluid','White_Dutta_Ode')])
prop('C16','Squirt-flow unrelaxed moduli',
 "Mavko-Jizba unrelaxed bulk and shear moduli and velocities, and the anisotropic squirt compliances, are those the dry high- and low-pressure measurements imply. The isotropic relation 1/Guf = 1/Gdry - 4/15 (1/Kdry - 1/Khp) holds, and with no soft porosity the result is the dry (or Gassmann) one.",
 ['inputs'],'all pairs of high- and low-pressure velocities or compliances, minerals, fluids, porosities',
 T+'one sample.',[('isotropic','Fluid','Mavko_Jizba'),('anisotropic','Fluid','Squirt_anisotropic')])
prop('C17','Batzle-Wang pore-fluid properties',
 "Density, bulk modulus and velocity of gas, CO2, dead and live oil, water and brine are the Batzle-Wang relations at every temperature, pressure, gravity, gas-oil ratio and salinity. The compressibility correction used is the derivative of the compressibility factor, brine at zero salinity is water, and modulus, density and velocity of one fluid are consistent (K = rho v^2).",
 ['inputs'],'all temperatures, pressures, gravities, gas-oil ratios (given or at saturation) and salinities; scalars and arrays',
 T+'one state each.',[('derivative','BW','dz_dp'),('pseudo state','BW','pseudo_p_t'),('CO2','BW','rho_K_co2'),('gas','BW','rho_K_gas'),('dead oil','BW','rho_K_oil'),('live oil','BW','rho_K_go'),('water','BW','rho_K_water'),('water velocity','BW','v_water'),('brine','BW','rho_K_brine'),('brine velocity','BW','v_brine')])
prop('C18','Fluid mixtures: CO2-brine and Brie',
 "The density of a CO2-brine mixture is the volume average; its modulus is the Reuss average, or Brie's law when an exponent is given, of the two fluids at that temperature, pressure and salinity, with either gas model. Brie's mixture of two fluids is (Kl-Kg)Sw^e + Kg; at saturations 0 and 1 a mixture is the pure fluid.",
 ['inputs','configurations'],'all temperatures, pressures, salinities, saturations in [0,1], exponents, both gas models',
 T+'one saturation.',[('CO2-brine','BW','co2_brine'),('Brie','Fluid','Brie')])
prop('C19','Empirical trends and their segments',
 "Each empirical relation (Krief, Vs estimates, Han, porosity-depth and velocity-depth trends of Ehrenberg, Yu, Ramm, St Peter, Scherbaum, Sclater, Storvoll, Hillis, Japsen, Hjelstuen, coordination number) returns its published formula for every depth, porosity or pressure. For trends defined piecewise, each depth is evaluated by the segment it belongs to, whatever the order of the depths, and boundary depths belong to exactly one segment.",
 ['inputs'],'all depths in and across segments (boundaries included), unsorted and repeated depths, scalars and arrays',
 T+'one depth, never several segments in one call.',[(f,'Empirical',f) for f in ['krief','esti_VS','han','ehrenberg','yu_segment_trend','ramm_porosity','ramm_porosity_segment','empirical_StPeter','Scherbaum','Sclater','Storvoll','Hillis','Japsen','hjelstuen','Cp']])
prop('C20','Permeability models',
 "Each permeability relation (Kozeny-Carman with and without percolation, Owolabi, the four log-based estimates, Panda-Lake with and without cement, Revil, Fredrich, Bloch, Bernabe) returns its published formula for every porosity, grain size, saturation and shape parameter. Permeability vanishes at zero porosity wherever the formula is proportional to a power of porosity, and scales with the square of the grain size or pore dimension.",
 ['inputs'],'all porosities, grain sizes, saturations, sorting and skewness; scalars and arrays',
 T+'one value each.',[(f,'Permeability',f) for f in ['Kozeny_Carman','Kozeny_Carman_Percolation','Owolabi','Perm_logs','Panda_Lake','Panda_Lake_cem','Revil','Fredrich','Bloch','Bernabe']])
prop('C21','Quantitative interpretation: screening curves and cement trends',
 "The mixed-mineral modulus and density, the three screening curves, the constant-cement trend velocities and the single-trend velocities returned are the documented composition of the library's own Hill average, granular model, Gassmann substitution and velocity conversion for the given minerals, cement, shale and brine. The three screening curves share the porosity axis; normalising a log divides by its maximum.",
 ['inputs','configurations'],'all mineral, cement, shale and brine properties, shale volumes (0 included), cement porosities, both schemes',
 T+'one setting each, shapes only.',[('matrix modulus','QI','matrix_modulus'),('matrix density','QI','den_matrix'),('screening','QI','screening'),('normalise','QI','normalize'),('constant-cement velocities','QI','cst_vels'),('single trend','QI','cal_v_const')])
prop('C22','Cement volume estimated from a well log',
 "For every log of velocity and porosity and every set of constant-cement trend lines, a sample between two neighbouring lines at its porosity gets the cement volume interpolated linearly in velocity between them; on or below the lowest line it is zero, on or above the highest it is that of the highest line. The estimate of a sample depends on that sample and the lines only, not on the other samples, their order or number.",
 ['inputs','histories'],'all logs (1 to 100 samples), 2 to 5 trend lines, minerals, schemes, shale volumes',
 T+'the operation raised for every input before the repair, so no test reached it.',[('labels','QI','estimate_cem'),('the trend lines','QI','cst_vels')])
prop('C23','Plots show the model curves and the data they were given',
 "The figures returned draw exactly the model curves of their arguments (rock-physics template lines, constant-cement chart, screening curves, cement diagnostics, density of the log) and the log samples at their own porosity and velocity, coloured by the given attribute. Nothing is dropped, reordered against its attribute, rescaled or drawn with the wrong curve.",
 ['inputs','configurations'],'all logs and curve sets, numbers of cement lines, saturation and porosity grids, Vp and Vs',
 'The existing tests do not look at the content of any figure.',[('chart','QI','cst_plot'),('template','QI','plot_rpt'),('screening plot','QI','screening_plot'),('diagnostics','QI','cement_diag_plot'),('density','QI','kde_plot')])
prop('C24','Stress-induced anisotropy of a granular pack',
 "The stiffness and stresses of a strained pack of spheres are those of Norris and Johnson for every strain and loading path (hydrostatic and uniaxial together, or one after the other): the stiffness is transversely isotropic about the loading axis and independent of the path, the stresses depend on it as prescribed. Selecting each documented path, or none, is accepted.",
 ['inputs','configurations'],'all grain materials, coordination numbers, porosities, isotropic and uniaxial strains, the three loading paths',
 T+'two paths, one strain.',[('stresses and stiffness','GM','johnson')])
with open('/verif/properties.jsonl','w') as w:
    for p in P: w.write(json.dumps(p)+'\n')
titles={p['id']:p['title'] for p in P}
note={'C01':"Every call of generated histories is compared, in TLC, with the same call made in a process in which nothing else was called; arguments, settings and earlier results are checked after every call.",
'C02':"Every array call of the generated walks is related by laws, in TLC, to calls on its elements, to the reversed call and to the call in other containers."}
d="Results of the real library on the calls of generated client histories are compared, by TLC, with the value the specification defines for the whole call; domain and tolerances in tla/X*.tla. Sampled, not exhaustive, over real inputs."
M=dict(version=1,setup_cmd="python3 bin/check.py --setup",checks=[dict(property=p['id'],quick_cmd="python3 bin/check.py %s --tier quick"%p['id'],thorough_cmd="python3 bin/check.py %s --tier thorough"%p['id'],
  technique="TLA+ specification; TLC generates client histories, replayed on the library; TLC validates the recorded traces",level="model_checking",
  level_note=note.get(p['id'],d)) for p in P],not_applicable=[],
  notes="No hooks: the public calls are the linearization points. Known findings and repairs: known_findings.txt.")
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
