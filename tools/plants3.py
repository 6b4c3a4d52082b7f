spec('clump_import_shift', 'C23', [('py/ymport.py', '''			curClump=[]
			idD = curClump.append(utils.sphere(shift+scale*pos,scale*float(data[3]),**kw))
''', '''			curClump=[]
			idD = curClump.append(utils.sphere(scale*(shift+pos),scale*float(data[3]),**kw))
''')],
'a clump file with at least two clumps, imported with a shift and a scale other than 1',
'the first member of every clump but the first is put at a scaled shift', '''
from yade import ymport
open('c.txt', 'w').write('#format x_y_z_r_clumpId\\n0 0 0 1 0\\n1 0 0 1 0\\n5 0 0 1 3\\n6 0 0 1 3\\n')
ymport.textClumps('c.txt', shift=Vector3(1, 2, 3), scale=2.)
pos = sorted(tuple(round(x, 6) for x in b.state.pos) for b in O.bodies if isinstance(b.shape, Sphere))
sys.exit(0 if pos == [(1, 2, 3), (3, 2, 3), (11, 2, 3), (13, 2, 3)] else 1)
''')

spec('bond_break_keeps_strength', 'C28', [('pkg/dem/CohesiveFrictionalContactLaw.cpp', '''				phys->SetBreakingState();
				maxFs = max((Real) 0, Fn*phys->tangensOfFrictionAngle);
			}
			maxFs = maxFs / Fs;''', '''				phys->SetBreakingState();
				maxFs = max((Real) 0, maxFs-phys->shearAdhesion);
			}
			maxFs = maxFs / Fs;''')],
'a fragile cohesive bond that breaks in shear; only the step of breaking is wrong',
'in the step in which a fragile bond breaks in shear it still carries its bonded strength instead of friction', '''
m = CohFrictMat(young=1e6, poisson=.5, frictionAngle=.3, isCohesive=True, normalCohesion=1e9, shearCohesion=1e4, fragile=True, momentRotationLaw=False, density=1000)
O.materials.append(m)
O.bodies.append([utils.sphere((0, 0, 0), 1, fixed=True), utils.sphere((0, 0, 1.99), 1, fixed=True)])
O.bodies[1].state.vel = Vector3(1, 0, 0)
O.dt = 1e-3
O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom6D()], [Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=True)], [Law2_ScGeom6D_CohFrictPhys_CohesionMoment()]), NewtonIntegrator()]
for k in range(200):
    O.step()
    ph = O.interactions[0, 1].phys
    if ph.cohesionBroken:
        sys.exit(0 if ph.shearForce.norm() <= 1.0001 * ph.normalForce.norm() * math.tan(.3) else 1)
sys.exit(2)
''')
