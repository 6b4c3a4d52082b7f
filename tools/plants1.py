spec('rot_prescribed_order', 'C12', [('pkg/dem/NewtonIntegrator.cpp', '''		Vector3r r(scene->forces.getRot(id));
		Real norm=r.norm(); r/=norm;
		Quaternionr q(AngleAxisr(norm,r));
		state->ori=q*state->ori;
	}
	state->ori.normalize();
}

void NewtonIntegrator::leapfrogAsphericalRotate''', '''		Vector3r r(scene->forces.getRot(id));
		Real norm=r.norm(); r/=norm;
		Quaternionr q(AngleAxisr(norm,r));
		state->ori=state->ori*q;
	}
	state->ori.normalize();
}

void NewtonIntegrator::leapfrogAsphericalRotate''')],
'a prescribed rotation (O.forces.addRot) on a body whose orientation is not the identity and not about the same axis',
'prescribed rotations are applied about the body axes instead of the global ones', '''
b = utils.sphere((0, 0, 0), 1)
b.state.ori = Quaternion((0, 0, 1), math.pi / 2)
O.bodies.append(b)
O.dt = 1e-3
O.engines = [NewtonIntegrator(warnNoForceReset=False)]
O.forces.addRot(0, Vector3(.3, 0, 0))
O.step()
want = Quaternion((1, 0, 0), .3) * Quaternion((0, 0, 1), math.pi / 2)
d = want.conjugate() * O.bodies[0].state.ori
sys.exit(0 if abs(abs(d[3]) - 1) < 1e-9 else 1)
''')

spec('clump_relative_orientation', 'C14', [('core/Clump.cpp', '''		I.second.orientation=state->ori.conjugate()*subState->ori;
		I.second.position=state->ori.conjugate()*(subState->pos-state->pos);
	}
}



void Clump::updatePropertiesNonSpherical''', '''		I.second.orientation=subState->ori*state->ori.conjugate();
		I.second.position=state->ori.conjugate()*(subState->pos-state->pos);
	}
}



void Clump::updatePropertiesNonSpherical''')],
'a clump whose principal axes are turned, with a member whose own orientation does not commute with them, followed by a step',
'members of a clump jump to a wrong orientation as soon as the clump moves', '''
m = O.materials.append(FrictMat(density=1000))
ids = [O.bodies.append(utils.sphere((x, y, z), 1, material=m)) for x, y, z in ((0, 0, 0), (2.1, .3, .2), (.4, 2.2, 1.), (3, 3, 3))]
O.bodies[1].state.ori = Quaternion((1, 0, 0), .7)
O.bodies[2].state.ori = Quaternion((0, 1, .3), 1.1)
cid = O.bodies.clump(ids)
before = [O.bodies[i].state.ori for i in ids]
O.dt = 1e-6
O.engines = [ForceResetter(), NewtonIntegrator()]
O.step()
sys.exit(0 if all(abs(abs((a.conjugate() * O.bodies[i].state.ori)[3]) - 1) < 1e-9 for a, i in zip(before, ids)) else 1)
''')

spec('contacts_cleared_not_refound', 'C06', [('pkg/common/InsertionSortCollider.cpp', '''		if(scene->interactions->dirty){
			doInitSort=true;
''', '''		if(scene->interactions->dirty){
			doInitSort=(BB[0].size==0);
''')],
'O.interactions.clear() in the middle of a run, with bodies that keep overlapping afterwards',
'pairs that overlap when interactions are cleared are never found again', '''
O.bodies.append([utils.sphere((0, 0, 0), 1), utils.sphere((1.9, 0, 0), 1)])
O.dt = 1e-9
O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator()]
O.step(); O.step()
n = O.interactions.countReal()
O.interactions.clear()
O.step(); O.step()
sys.exit(0 if n == 1 and O.interactions.countReal() == 1 else 1)
''')


spec('energy_branch_friction', 'C10', [('pkg/dem/ElasticContactLaw.cpp', '''			Real ratio = sqrt(maxFs) / shearForce.norm();
			Vector3r trialForce=shearForce;//store prev force for definition of plastic slip
			//define the plastic work input and increment the total plastic energy dissipated
			shearForce *= ratio;''', '''			Real ratio = sqrt(sqrt(maxFs) / shearForce.norm());
			Vector3r trialForce=shearForce;//store prev force for definition of plastic slip
			//define the plastic work input and increment the total plastic energy dissipated
			shearForce *= ratio;''')],
'energy tracking switched on and a sliding contact',
'with energy tracking on, the shear force exceeds the Coulomb limit of the contact', '''
O.bodies.append([utils.sphere((0, 0, 0), 1), utils.sphere((1.9, 0, 0), 1)])
O.bodies[1].state.vel = Vector3(0, 5, 0)
O.trackEnergy = True
O.dt = 1e-4
O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator()]
bad = 0
for s in range(600):
    O.step()
    for i in O.interactions:
        bad += i.phys.shearForce.norm() > i.phys.normalForce.norm() * i.phys.tangensOfFrictionAngle * (1 + 1e-9) + 1e-12
sys.exit(0 if not bad else 1)
''')


spec('permanent_force_resurrected', 'C01', [('core/ForceContainerParallel.cpp', '''    memset(&_permForce [0], 0,sizeof(Vector3r)*size);
    memset(&_permTorque[0], 0,sizeof(Vector3r)*size);
    permForceUsed = false;''', '''    permForceUsed = false;''')],
'a permanent force, a full reset, and afterwards a permanent force on another body',
'a permanent force cleared by a full reset comes back when another one is set', '''
O.bodies.append([utils.sphere((3 * i, 0, 0), 1) for i in range(3)])
O.forces.setPermF(0, Vector3(1, 2, 3))
O.forces.reset(True)
O.forces.setPermF(1, Vector3(5, 0, 0))
sys.exit(0 if O.forces.f(0, True).norm() == 0 and O.forces.f(1, True) == Vector3(5, 0, 0) else 1)
''')
