From 72fd0afe663b16dd40739797609818d451a9fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:09 +0000
Subject: [PATCH 01/88] fix: permanent forces are never dropped when a lower
 body id gets one

ForceContainer::ensureSize(id,-1) indexed _maxId[-1] and resized the arrays of permanent forces and
torques to fit the given id only, so that setting a permanent load on a body with a low id discarded
those set before on bodies with a high id. Reading a force without synchronisation could also read
past the end of these arrays.
---
 core/ForceContainerParallel.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..99b018b 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,13 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) { // permanent forces and torques, common to all threads; never shrink, values already set would be lost
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
@@ -135,7 +137,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -144,7 +146,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From 38c93301cfcd127669ea20ea757b462a1dadb1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:31 +0000
Subject: [PATCH 02/88] fix: body ids out of range are refused, a refilled slot
 is collided again

BodyContainer::erase and insertAtId read body[id] before (or without) checking the range. After
insertAtId the collider relied on the order of the bounds left by the body erased from that slot,
inversions of which it had ignored, and missed contacts of the new body.
---
 core/BodyContainer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..e2739aa 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,18 +28,19 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
+	scene->interactions->dirty=true; // the collider has bounds of the erased body in this slot, it must not rely on their order
   body[b->id] = b; 
 	return b->id;
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
-- 
2.43.0


From d4fd17d34eaafec881f2b8a0ac01d2c233c30f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:31 +0000
Subject: [PATCH 03/88] fix: contacts of erased bodies and non-real contacts
 are removed consistently

eraseNonReal erased from the container it was iterating over, and the collider did not create the
erased potential contacts again. Contacts of an erased body stayed potential as long as its last
bounds overlapped; when the erased body had the lower id, the other body kept the entry forever, so
that a new body in that slot could not get its contact.
---
 core/InteractionContainer.cpp        | 16 ++++++++++++----
 pkg/common/InsertionSortCollider.hpp |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..8b8c5b4 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -58,8 +58,10 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	const shared_ptr<Body>& b2((*bodies)[id2]);
 	int linIx=-1;
-	if(!b1) linIx=linPos;
-	else {
+	if(!b1) {
+		linIx=linPos;
+		if (b2) b2->intrs.erase(id1);
+	} else {
 		Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
 		if(I==b1->intrs.end()) linIx=linPos;
 		else {
@@ -92,7 +94,7 @@ const shared_ptr<Interaction>& InteractionContainer::find(Body::id_t id1,Body::i
 	assert(bodies);
 	if (id1>id2) swap(id1,id2); 
 	// those checks could be perhaps asserts, but pyInteractionContainer has no access to the body container...
-	if(id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
+	if(id1<0 || id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	if(!b1) { empty=shared_ptr<Interaction>(); return empty; }
 	Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
@@ -120,7 +122,13 @@ void InteractionContainer::requestErase(Interaction* I){
 }
 
 void InteractionContainer::eraseNonReal(){
-	FOREACH(const shared_ptr<Interaction>& i, *this) if(!i->isReal()) this->erase(i->getId1(),i->getId2(),i->linIx);
+	// erasing moves the last interaction to the current position, see conditionalyEraseNonReal
+	for(size_t linPos=0; linPos<currSize;){
+		const shared_ptr<Interaction> i=linIntrs[linPos];
+		if(!i->isReal()) erase(i->getId1(),i->getId2(),linPos);
+		else linPos++;
+	}
+	dirty=true; // the collider would not create the potential interactions again otherwise
 }
 
 // compare interaction based on their first id
diff --git a/pkg/common/InsertionSortCollider.hpp b/pkg/common/InsertionSortCollider.hpp
index 258a63d..8ae289c 100644
--- a/pkg/common/InsertionSortCollider.hpp
+++ b/pkg/common/InsertionSortCollider.hpp
@@ -158,6 +158,7 @@ class InsertionSortCollider: public Collider{
 	public:
 	//! Predicate called from loop within InteractionContainer::erasePending
 	bool shouldBeErased(Body::id_t id1, Body::id_t id2, Scene* rb) const {
+		if(!Body::byId(id1,rb) || !Body::byId(id2,rb)) return true; // bounds of an erased body are not updated anymore
 		if(!periodic) return !spatialOverlap(id1,id2);
 		else { Vector3i periods; return !spatialOverlapPeri(id1,id2,rb,periods); }
 	}
-- 
2.43.0


From ff61131ee976517a189db152440290ca91b7b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:31 +0000
Subject: [PATCH 04/88] fix: O.interactions.has with the id of an erased body
 does not crash

---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fc42921..fbef1de 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -457,7 +457,7 @@ class pyInteractionContainer{
 		const shared_ptr<InteractionContainer> proxee;
 		pyInteractionContainer(const shared_ptr<InteractionContainer>& _proxee): proxee(_proxee){}
 		pyInteractionIterator pyIter(){return pyInteractionIterator(proxee);}
-		bool has(Body::id_t id1, Body::id_t id2){return proxee->found(id1,id2);}
+		bool has(Body::id_t id1, Body::id_t id2){return (bool)proxee->find(id1,id2);}
 		shared_ptr<Interaction> pyGetitem(vector<Body::id_t> id12){
 			//if(!PySequence_Check(id12.ptr())) throw invalid_argument("Key must be a tuple");
 			//if(py::len(id12)!=2) throw invalid_argument("Key must be a 2-tuple: id1,id2.");
-- 
2.43.0


From 7ff6e331a11c4891bcf66f6e9106c36a5a7839f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:49 +0000
Subject: [PATCH 05/88] fix: merging clumps keeps the moved members in the
 target clump

addToClump erases the source clump after its members were handed over; erasing it made them
standalone although the target clump lists them as members.
---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index e2739aa..b8df57f 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -58,7 +58,7 @@ bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is fa
 		for(Body::id_t memberId : idsToRemove){
 			if (eraseClumpMembers) {
 				this->erase(memberId,false);	// erase members
-			} else {
+			} else if (Body::byId(memberId)->clumpId==id) { // unless it was handed over to another clump meanwhile
 				//when the last members is erased, the clump will be erased automatically, see above
 				Body::byId(memberId)->clumpId=Body::ID_NONE; // make members standalones
 			}
-- 
2.43.0


From e5d105559f49be199028eb72eed669a4d23884d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:07 +0000
Subject: [PATCH 06/88] fix: orientation of a clump is a rotation onto its
 principal axes

The eigenvectors of the inertia tensor may form a left-handed basis; converting that to a quaternion
gave an orientation unrelated to the principal axes (e.g. for two equal spheres along z).
---
 core/Clump.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..01fa6be 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // the eigenvectors may form a left-handed basis, which is no rotation
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
@@ -307,6 +308,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // the eigenvectors may form a left-handed basis, which is no rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
@@ -411,6 +413,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // the eigenvectors may form a left-handed basis, which is no rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
-- 
2.43.0


From 9944a6a7ed6c2d5215c94b457a96e48e4c25fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:26 +0000
Subject: [PATCH 07/88] fix: inertia of rotated non-spherical clump members is
 turned to the global frame

The local tensor was rotated by the member's orientation in the wrong direction.
---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 01fa6be..89bb640 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -204,7 +204,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 				const Quaternionr& ori = subState->ori;
 				M += m;
 				Sg += m*pos;
-				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori),m,-pos);
+				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori.conjugate()),m,-pos);
 			}
 		}
 	}
-- 
2.43.0


From 21adb419f37832cf01e31bfa1f8cf92e1335c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:05 +0000
Subject: [PATCH 08/88] fix: the integrator's mask also applies to the rotation
 of aspherical bodies

---
 pkg/dem/NewtonIntegrator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..971c758 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -258,10 +258,11 @@ void NewtonIntegrator::leapfrogAsphericalRotate(State* state, const Body::id_t&
 	Vector3r angVel_b_half = l_b_half.cwiseQuotient(state->inertia); // local angular velocity at time n+1/2
 	if (densityScaling) angVel_b_half*=state->densityScaling;
 	const Quaternionr dotQ_half=DotQ(angVel_b_half,Q_half); // dQ/dt at time n+1/2
-	state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
+	const bool rotates=(mask<=0) or (Body::byId(id)->maskCompatible(mask)); // as in leapfrogSphericalRotate
+	if(rotates) state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
 	state->angVel=state->ori*angVel_b_half; // global angular velocity at time n+1/2
 
-	if(scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
+	if(rotates && scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
 		Vector3r r(scene->forces.getRot(id));
 		Real norm=r.norm(); r/=norm;
 		Quaternionr q(AngleAxisr(norm,r));
-- 
2.43.0


From 745ee40b56377256d5e1e07001e3a65e3dbbb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:44 +0000
Subject: [PATCH 09/88] fix: tracked rotational energy of aspherical bodies
 uses the inertia tensor in the global frame

as kineticEnergy() already does
---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index 971c758..c5b37bb 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -52,7 +52,7 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	if(b->isAspherical()){
 		Matrix3r mI; mI<<state->inertia[0],0,0, 0,state->inertia[1],0, 0,0,state->inertia[2];
 		Matrix3r T(state->ori);
-		Erot=.5*b->state->angVel.transpose().dot((T.transpose()*mI*T)*b->state->angVel);
+		Erot=.5*b->state->angVel.transpose().dot((T*mI*T.transpose())*b->state->angVel);
 	} else { Erot=0.5*state->angVel.dot(state->inertia.cwiseProduct(state->angVel)); }
 	if(!kinSplit) scene->energy->add(Etrans+Erot,"kinetic",kinEnergyIx,/*non-incremental*/true);
 	else{ scene->energy->add(Etrans,"kinTrans",kinEnergyTransIx,true); scene->energy->add(Erot,"kinRot",kinEnergyRotIx,true); }
-- 
2.43.0


From 21fc559246e5b43701afbf2ef37c1a01112b1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:21 +0000
Subject: [PATCH 10/88] fix: O.cell.size can be assigned as documented

---
 core/Cell.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/Cell.hpp b/core/Cell.hpp
index fac85eb..08156e1 100644
--- a/core/Cell.hpp
+++ b/core/Cell.hpp
@@ -169,7 +169,6 @@ class Cell: public Serializable{
 		// useful properties
 		.add_property("trsf",&Cell::getTrsf,&Cell::setTrsf,"Current transformation matrix of the cell, obtained from time integration of :yref:`Cell.velGrad`.")
 		.add_property("velGrad",&Cell::getVelGrad,&Cell::setVelGrad,"Velocity gradient of the transformation; used in :yref:`NewtonIntegrator`. Values of :yref:`velGrad<Cell.velGrad>` accumulate in :yref:`trsf<Cell.trsf>` at every step.\n\n NOTE: changing velGrad at the beginning of a simulation loop would lead to inacurate integration for one step, as it should normaly be changed after the contact laws (but before Newton). To avoid this problem, assignment is deferred automatically. The target value typed in terminal is actually stored in :yref:`Cell.nextVelGrad` and will be applied right in time by Newton integrator. \n\n.. note::\n\t Assigning individual components of velGrad is not possible (it will not return any error but it will have no effect). Instead, you can assign to :yref:`Cell.nextVelGrad`, as in O.cell.nextVelGrad[1,2]=1.")
-		.def_readonly("size",&Cell::getSize_copy,"Current size of the cell, i.e. lengths of the 3 cell lateral vectors contained in :yref:`Cell.hSize` columns. Updated automatically at every step.")
 		.add_property("volume",&Cell::getVolume,"Current volume of the cell.")
 		// functions
 		.def("setBox",&Cell::setBox,"Set :yref:`Cell` shape to be rectangular, with dimensions along axes specified by given argument. Shorthand for assigning diagonal matrix with respective entries to :yref:`hSize<Cell.hSize>`.")
-- 
2.43.0


From ed518f955da0f92b08ec6ed1e78adcaeb669b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 11/88] fix: SpatialQuickSortCollider honours masks and clumps
 and forgets erased bodies

---
 pkg/common/SpatialQuickSortCollider.cpp | 28 +++++++++----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/pkg/common/SpatialQuickSortCollider.cpp b/pkg/common/SpatialQuickSortCollider.cpp
index 3710377..446910b 100644
--- a/pkg/common/SpatialQuickSortCollider.cpp
+++ b/pkg/common/SpatialQuickSortCollider.cpp
@@ -26,26 +26,17 @@ void SpatialQuickSortCollider::action()
 	// that were requested for erase might be erased here and will be recreated if necessary.
 	scene->interactions->eraseNonReal();
 
-	size_t nbElements=bodies->size();
-	if (nbElements!=rank.size())
-	{
-		size_t n = rank.size();
-		rank.resize(nbElements);
-		for (; n<nbElements; ++n)
-			rank[n] = shared_ptr<AABBBound>(new AABBBound);
-	}
-
 	Vector3r min,max;
-	int i=0;
+	size_t nbElements=0; // bodies which have bounds
 	FOREACH(const shared_ptr<Body>& b, *bodies){
-		if(!b->bound) continue;
-		min = b->bound->min;
-		max = b->bound->max;
-		rank[i]->id = b->getId();
-		rank[i]->min = min;
-		rank[i]->max = max;
-		i++;
+		if(!b || !b->bound) continue;
+		if(nbElements==rank.size()) rank.push_back(shared_ptr<AABBBound>(new AABBBound));
+		rank[nbElements]->id = b->getId();
+		rank[nbElements]->min = b->bound->min;
+		rank[nbElements]->max = b->bound->max;
+		nbElements++;
 	}
+	rank.resize(nbElements);
 	
 	const shared_ptr<InteractionContainer>& interactions=scene->interactions;
 	scene->interactions->iterColliderLastRun=scene->iter;
@@ -54,7 +45,7 @@ void SpatialQuickSortCollider::action()
 
 	int id,id2; size_t j;
 	shared_ptr<Interaction> interaction;
-	for(int i=0,e=nbElements-1; i<e; ++i)
+	for(int i=0,e=(int)nbElements-1; i<e; ++i)
 	{
 		id  = rank[i]->id;
 		min = rank[i]->min;
@@ -71,6 +62,7 @@ void SpatialQuickSortCollider::action()
 				id2=rank[j]->id;
 				if ( (interaction = interactions->find(Body::id_t(id),Body::id_t(id2))) == 0)
 				{
+					if(!Collider::mayCollide(Body::byId(id,scene).get(),Body::byId(id2,scene).get(),scene->subdomain)) continue;
 					interaction = shared_ptr<Interaction>(new Interaction(id,id2) );
 					interactions->insert(interaction);
 				}
-- 
2.43.0


From effc74ab06ae17ce54a21fb2eb3a83c0489aa548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:31 +0000
Subject: [PATCH 12/88] fix: FlatGridCollider finds contacts of moving bodies
 and places bodies in the right cells

---
 pkg/dem/FlatGridCollider.cpp | 20 ++++++++++----------
 pkg/dem/FlatGridCollider.hpp |  9 +++------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/pkg/dem/FlatGridCollider.cpp b/pkg/dem/FlatGridCollider.cpp
index bdcda1e..5e53be3 100644
--- a/pkg/dem/FlatGridCollider.cpp
+++ b/pkg/dem/FlatGridCollider.cpp
@@ -3,7 +3,6 @@
 #include<core/Scene.hpp>
 
 #include<pkg/common/Sphere.hpp>
-#include<pkg/dem/NewtonIntegrator.hpp>
 //#include<pkg/common/Facet.hpp>
 
 YADE_PLUGIN((FlatGridCollider));
@@ -12,19 +11,18 @@ CREATE_LOGGER(FlatGridCollider);
 bool FlatGridCollider::isActivated(){
 	// keep interactions trequested for deletion as potential (forget removal requests)
 // 	scene->interactions->clearPendingErase();
-	if(!newton) return true;
+	if(scene->interactions->dirty || refPos.size()!=scene->bodies->size()) return true;
 	// handle verlet distance
-	fastestBodyMaxDist+=sqrt(newton->maxVelocitySq)*scene->dt;
-	if(fastestBodyMaxDist>verletDist) return true;
+	FOREACH(const shared_ptr<Body>& b, *scene->bodies){
+		if(b && (b->state->pos-refPos[b->getId()]).squaredNorm()>verletDist*verletDist) return true;
+	}
 	return false;
 }
 
 void FlatGridCollider::action(){
-	if(!newton){
-		FOREACH(const shared_ptr<Engine>& e, scene->engines){ newton=YADE_PTR_DYN_CAST<NewtonIntegrator>(e); if(newton) break; }
-		if(!newton){ throw runtime_error("FlatGridCollider: Unable to find NewtonIntegrator in engines."); }
-	}
-	fastestBodyMaxDist=0;
+	scene->interactions->dirty=false;
+	refPos.resize(scene->bodies->size(),Vector3r::Zero());
+	FOREACH(const shared_ptr<Body>& b, *scene->bodies) if(b) refPos[b->getId()]=b->state->pos;
 	// make interaction loop delete unseen potential interactions
 	scene->interactions->iterColliderLastRun=scene->iter;
 	// adjust grid if necessary
@@ -98,7 +96,9 @@ void FlatGridCollider::updateCollisions(){
 			if(I){ I->iterLastSeen=iter; continue; }
 			// no interaction yet
 			if(!Collider::mayCollide(Body::byId(id1,scene).get(),Body::byId(id2,scene).get(),scene->subdomain)) continue;
-			intrs->insert(shared_ptr<Interaction>(new Interaction(id1,id2)));
+			shared_ptr<Interaction> newI(new Interaction(id1,id2));
+			newI->iterLastSeen=iter;
+			intrs->insert(newI);
 			LOG_TRACE("Created new interaction #"<<id1<<"+#"<<id2);
 		}
 	}
diff --git a/pkg/dem/FlatGridCollider.hpp b/pkg/dem/FlatGridCollider.hpp
index e4f66d1..400e5d3 100644
--- a/pkg/dem/FlatGridCollider.hpp
+++ b/pkg/dem/FlatGridCollider.hpp
@@ -1,6 +1,5 @@
 // 2009 © Václav Šmilauer <eudoxos@arcig.cz> 
 #include<pkg/common/Collider.hpp>
-class NewtonIntegrator;
 class FlatGridCollider: public Collider{
 	struct Grid{
 		typedef std::vector<Body::id_t> idVector;
@@ -8,7 +7,7 @@ class FlatGridCollider: public Collider{
 		Vector3r mn, mx;
 		Real step;
 		// convert point into its integral coordinates (can be outside grid, use fitGrid to coords inside)
-		Vector3i pt2int(const Vector3r& pt){ Vector3i ret; for(int i=0;i<3;i++)ret[i]=floor((pt[i]-mn[1])/step); return ret; }
+		Vector3i pt2int(const Vector3r& pt){ Vector3i ret; for(int i=0;i<3;i++)ret[i]=floor((pt[i]-mn[i])/step); return ret; }
 		std::vector<idVector> data;
 		// force integral coordinate inside (0,sz-1)
 		int fit(int i, int sz) const { return max(0,min(i,sz-1)); }
@@ -22,10 +21,8 @@ class FlatGridCollider: public Collider{
 	};
 	Grid grid;
 	int sphereIdx, facetIdx, wallIdx, boxIdx;
-	// needed for maxVelSq
-	shared_ptr<NewtonIntegrator> newton;
-	// track maximum distance of fastest body, at every step in isActivated
-	Real fastestBodyMaxDist;
+	// positions of bodies when the grid was updated last
+	std::vector<Vector3r> refPos;
 	void initIndices();
 	void updateGrid();
 	void updateBodyCells(const shared_ptr<Body>& b);
-- 
2.43.0


From 2f8cf638eaf23635e1fa64b1c578428807d045f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:25 +0000
Subject: [PATCH 13/88] fix: L3Geom functors do not divide by zero when
 trsfRenorm is 0 (documented as: never renormalize)

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 182061d..b48a548 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -141,7 +141,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	for(int i=1; i<3; i++){
 		currTrsf.row(i)=prevTrsf.row(i)-prevTrsf.row(i).cross(normRotVec)-prevTrsf.row(i).cross(normTwistVec);
 	}
-  if((scene->iter % trsfRenorm)==0 && trsfRenorm>0){
+  if(trsfRenorm>0 && (scene->iter % trsfRenorm)==0){
       currTrsf.row(0).normalize();
       currTrsf.row(1)-=currTrsf.row(0)*currTrsf.row(1).dot(currTrsf.row(0)); // take away y projected on x, to stabilize numerically
       currTrsf.row(1).normalize();
-- 
2.43.0


From 69dc1fef0ba48942b1b0e82ea20cc18768aade8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:25 +0000
Subject: [PATCH 14/88] fix: L3Geom branch vectors: noRatch uses the radius of
 both spheres, and the periodic shift has the right sign

---
 pkg/dem/L3Geom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index b48a548..7afa744 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -115,8 +115,8 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	Vector3r normTwistVec=avgNormal*scene->dt*.5*avgNormal.dot(state1.angVel+state2.angVel);
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
-	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
-	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos+shift2).eval());
+	Vector3r c1x=((noRatch && r1>0) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
+	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-(state2.pos+shift2)).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
 	Vector3r relShearVel=(state2.vel+state2.angVel.cross(c2x))-(state1.vel+state1.angVel.cross(c1x));
-- 
2.43.0


From 31ded77a7d8d360df018bfce391d2efb0f555115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 15/88] fix: energy dissipated by numerical damping accounts
 for gravity and blocked degrees of freedom

---
 pkg/dem/NewtonIntegrator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index c5b37bb..a130a1b 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -41,9 +41,15 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	assert(b->isStandalone() || b->isClump());
 	// always positive dissipation, by-component: |F_i|*|v_i|*damping*dt (|T_i|*|ω_i|*damping*dt for rotations)
 	if(damping!=0. && state->isDamped){
-		scene->energy->add(fluctVel.cwiseAbs().dot(f.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,/*non-incremental*/false);
+		// what is damped is the acceleration, which includes gravity and excludes blocked DOFs
+		Vector3r dampedF(f+state->mass*gravity), dampedM(m);
+		for(int i=0; i<3; i++){
+			if(state->blockedDOFs & State::axisDOF(i,false)) dampedF[i]=0;
+			if(state->blockedDOFs & State::axisDOF(i,true)) dampedM[i]=0;
+		}
+		scene->energy->add(fluctVel.cwiseAbs().dot(dampedF.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,/*non-incremental*/false);
 		// when the aspherical integrator is used, torque is damped instead of ang acceleration; this code is only approximate
-		scene->energy->add(state->angVel.cwiseAbs().dot(m.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,false);
+		scene->energy->add(state->angVel.cwiseAbs().dot(dampedM.cwiseAbs())*damping*scene->dt,"nonviscDamp",nonviscDampIx,false);
 	}
 	// kinetic energy
 	Real Etrans=.5*state->mass*fluctVel.squaredNorm();
-- 
2.43.0


From 94bacc2f24e0b4651d829126c85925f4baca5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 16/88] fix: energies first seen by several threads at once are
 registered once

---
 core/EnergyTracker.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index 6df49f2..e90835a 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -9,12 +9,13 @@ class EnergyTracker: public Serializable{
 	~EnergyTracker();
 	void findId(const std::string& name, int& id, bool reset=false, bool newIfNotFound=true){
 		if(id>0) return; // the caller should have checked this already
-		if(names.count(name)) id=names[name];
-		else if(newIfNotFound) {
-			#ifdef YADE_OPENMP
-				#pragma omp critical
-			#endif
-				{ energies.resize(energies.size()+1); id=energies.size()-1; resetStep.resize(id+1); resetStep[id]=reset; names[name]=id; assert(id<(int)energies.size()); assert(id>=0); }
+		// several threads may ask for the same (or a new) name for the first time
+		#ifdef YADE_OPENMP
+			#pragma omp critical(EnergyTracker_findId)
+		#endif
+		{
+			if(names.count(name)) id=names[name];
+			else if(newIfNotFound) { energies.resize(energies.size()+1); int newId=energies.size()-1; resetStep.resize(newId+1); resetStep[newId]=reset; names[name]=newId; assert(newId<(int)energies.size()); assert(newId>=0); id=newId; }
 		}
 	}
 	// set value of the accumulator; note: must NOT be called from parallel sections!
-- 
2.43.0


From e57503b866104a40278b1342735d76a7a1cc2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 17/88] fix: energies are still tracked after O.energy.clear()

---
 core/EnergyTracker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index e90835a..4444dac 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -36,7 +36,8 @@ class EnergyTracker: public Serializable{
 	void setItem_py(const std::string& name, Real val){
 		int id=-1; set(val,name,id);
 	}
-	void clear(){ energies.clear(); names.clear(); resetStep.clear();}
+	// names are kept: engines and functors remember indices of their energies
+	void clear(){ size_t sz=energies.size(); for(size_t id=0; id<sz; id++) energies.reset(id); }
 	void resetResettables(){ size_t sz=energies.size(); for(size_t id=0; id<sz; id++){ if(resetStep[id]) energies.reset(id); } }
 
 	Real total() const { Real ret=0; size_t sz=energies.size(); for(size_t id=0; id<sz; id++) ret+=energies.get(id); return ret; };
-- 
2.43.0


From 2b85ee3d818881960db6beaf33ce3f588e5ab884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:36 +0000
Subject: [PATCH 18/88] fix: elastic energy of Hertz-Mindlin contacts kept
 without overlap is zero, not NaN

---
 pkg/dem/HertzMindlin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/HertzMindlin.cpp b/pkg/dem/HertzMindlin.cpp
index a68c814..d3428a7 100644
--- a/pkg/dem/HertzMindlin.cpp
+++ b/pkg/dem/HertzMindlin.cpp
@@ -123,6 +123,7 @@ Real Law2_ScGeom_MindlinPhys_Mindlin::normElastEnergy()
 		ScGeom* scg = dynamic_cast<ScGeom*>(I->geom.get());
 		MindlinPhys* phys = dynamic_cast<MindlinPhys*>(I->phys.get());
 		if (phys) {
+			if (scg->penetrationDepth<0) continue; // kept by neverErase, but not touching
 			if (includeAdhesion) {normEnergy += (std::pow(scg->penetrationDepth,5./2.)*2./5.*phys->kno - phys->adhesionForce*scg->penetrationDepth);}
 			else {normEnergy += std::pow(scg->penetrationDepth,5./2.)*2./5.*phys->kno;} // work done in the normal direction. NOTE: this is the integral
 			}
-- 
2.43.0


From 68cb7578ccae4d79d0ce81fcfe18ff48bbe0acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:13 +0000
Subject: [PATCH 19/88] fix: bubble contacts keep their coefficients when saved
 and loaded

---
 pkg/dem/BubbleMat.cpp |  2 +-
 pkg/dem/BubbleMat.hpp | 10 ++--------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/dem/BubbleMat.cpp b/pkg/dem/BubbleMat.cpp
index 0c8ba32..7df101e 100644
--- a/pkg/dem/BubbleMat.cpp
+++ b/pkg/dem/BubbleMat.cpp
@@ -68,8 +68,8 @@ bool Law2_ScGeom_BubblePhys_Bubble::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhy
 		return false;
 	}
 	
+	const Real c1 = 2*Mathr::PI*surfaceTension; //Coeff used for many contacts
 	if (I->isFresh(scene)) {
-		c1 = 2*Mathr::PI*surfaceTension;
 		phys->rAvg = .5*(geom->refR1 + geom->refR2);
 		phys->computeCoeffs(pctMaxForce,surfaceTension,c1);
 	}
diff --git a/pkg/dem/BubbleMat.hpp b/pkg/dem/BubbleMat.hpp
index 096beed..0266143 100644
--- a/pkg/dem/BubbleMat.hpp
+++ b/pkg/dem/BubbleMat.hpp
@@ -24,10 +24,6 @@ REGISTER_SERIALIZABLE(BubbleMat);
 
 /********************** BubblePhys ****************************/
 class BubblePhys : public IPhys {
-	private:
-
-	Real coeffA,coeffB; //Coefficents for artificial curve
-  
 	public:
 
 	void computeCoeffs(Real pctMaxForce,Real surfaceTension, Real c1);
@@ -42,6 +38,8 @@ class BubblePhys : public IPhys {
 		((Real,Dmax,NaN,,"Maximum penetrationDepth of the bubbles before the force displacement curve changes to an artificial exponential curve. Setting this value will have no effect. See Law2_ScGeom_BubblePhys_Bubble::pctMaxForce for more information"))
 		((Real,newtonIter,50,,"Maximum number of force iterations allowed"))
 		((Real,newtonTol,1e-6,,"Convergence criteria for force iterations"))
+		((Real,coeffA,NaN,Attr::hidden,"Coefficient of the artificial curve"))
+		((Real,coeffB,NaN,Attr::hidden,"Coefficient of the artificial curve"))
 		,
 		createIndex();
 		,
@@ -69,10 +67,6 @@ REGISTER_SERIALIZABLE(Ip2_BubbleMat_BubbleMat_BubblePhys);
 
 /********************** Law2_ScGeom_BubblePhys_Bubble ****************************/
 class Law2_ScGeom_BubblePhys_Bubble : public LawFunctor{
-	private:
-	  
-	  Real c1; //Coeff used for many contacts
-  
 	public:
 	virtual bool go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys, Interaction* interaction);
 	FUNCTOR2D(GenericSpheresContact,BubblePhys);
-- 
2.43.0


From 89ca66b8ceb912e2275d22be124e823c9dfeb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:13 +0000
Subject: [PATCH 20/88] fix: loading a simulation keeps the step in which
 interactions were born

---
 core/InteractionContainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 8b8c5b4..13a0f40 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -157,7 +157,9 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 		if (!(*bodies)[id1] || !(*bodies)[id2]) {
 			return;
 		} else {
+			const long iterBorn=I->iterBorn;
 			insert(I);
+			I->iterBorn=iterBorn; // loaded, not born now
 		}
 	}
 	interaction.clear();
-- 
2.43.0


From 652c3c349315d6140cf4076094c8c7646feae261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 21/88] fix: damage and strains of concrete contacts are saved
 with the simulation

---
 pkg/dem/ConcretePM.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/dem/ConcretePM.hpp b/pkg/dem/ConcretePM.hpp
index 2c9702d..07f444d 100644
--- a/pkg/dem/ConcretePM.hpp
+++ b/pkg/dem/ConcretePM.hpp
@@ -139,11 +139,6 @@ REGISTER_SERIALIZABLE(CpmMat);
 class CpmPhys: public NormShearPhys {
 	public:
 		static long cummBetaIter, cummBetaCount;
-		/*! auxiliary variable for visualization, recalculated in Law2_ScGeom_CpmPhys_Cpm at every iteration */
-		// Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys 
-		Real omega = 0, Fn = 0, sigmaN, epsN = 0, relResidualStrength, kappaD = 0, epsNPl = 0;
-		Vector3r sigmaT, Fs, epsTPl, epsT;
-
 		static Real solveBeta(const Real c, const Real N);
 		Real computeDmgOverstress(Real dt);
 		Real computeViscoplScalingFactor(Real sigmaTNorm, Real sigmaTYield,Real dt);
@@ -157,7 +152,6 @@ class CpmPhys: public NormShearPhys {
 		void setRelResidualStrength(Real r);
 
 		virtual ~CpmPhys();
-		#define _ZERO_VECTOR3R(v) v = Vector3r::Zero()
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(CpmPhys,NormShearPhys,"Representation of a single interaction of the Cpm type: storage for relevant parameters.\n\n Evolution of the contact is governed by :yref:`Law2_ScGeom_CpmPhys_Cpm`, that includes damage effects and chages of parameters inside CpmPhys. See :yref:`cpm-model<CpmMat>` for details.",
 			((Real,E,NaN,,"normal modulus (stiffness / crossSection) [Pa]"))
 			((Real,G,NaN,,"shear modulus [Pa]"))
@@ -181,10 +175,21 @@ class CpmPhys: public NormShearPhys {
 			((int,damLaw,1,,"Law for softening part of uniaxial tension. 0 for linear, 1 for exponential (default)"))
 			//((Real,epsPlSum,0,,"cummulative shear plastic strain measure (scalar) on this contact"))
 			((bool,isCohesive,false,,"if not cohesive, interaction is deleted when distance is greater than zero."))
+			// state of the contact: must be saved; python access is defined below
+			// Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys
+			((Real,omega,0,Attr::hidden,"Damage internal variable"))
+			((Real,Fn,0,Attr::hidden,"Magnitude of normal force"))
+			((Vector3r,Fs,Vector3r::Zero(),Attr::hidden,"Shear force"))
+			((Real,sigmaN,0,Attr::hidden,"Current normal stress"))
+			((Vector3r,sigmaT,Vector3r::Zero(),Attr::hidden,"Current shear stress"))
+			((Real,epsN,0,Attr::hidden,"Current normal strain"))
+			((Vector3r,epsT,Vector3r::Zero(),Attr::hidden,"Current shear strain"))
+			((Real,epsNPl,0,Attr::hidden,"Normal plastic strain"))
+			((Vector3r,epsTPl,Vector3r::Zero(),Attr::hidden,"Shear plastic strain"))
+			((Real,kappaD,0,Attr::hidden,"Up to now maximum normal strain"))
+			((Real,relResidualStrength,0,Attr::hidden,"Relative residual strength"))
 			, // ctors
 			createIndex();
-			epsN = 0;
-			_ZERO_VECTOR3R(epsT); _ZERO_VECTOR3R(Fs); _ZERO_VECTOR3R(epsTPl);
 			,
 			.def_readonly("omega",&CpmPhys::omega,"Damage internal variable |yupdate|")
 			.def_readonly("Fn",&CpmPhys::Fn,"Magnitude of normal force |yupdate|")
@@ -206,7 +211,6 @@ class CpmPhys: public NormShearPhys {
 			.def("setDamage",&CpmPhys::setDamage,"TODO")
 			.def("setRelResidualStrength",&CpmPhys::setRelResidualStrength,"TODO")
 		);
-		#undef _ZERO_VECTOR3R
 	DECLARE_LOGGER;
 	REGISTER_CLASS_INDEX(CpmPhys,NormShearPhys);
 };
-- 
2.43.0


From 5d2ec9503c4066659fac75ef2d0f9b248610474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 22/88] fix: effective radius of capillary contacts is saved
 with the simulation

---
 pkg/dem/ViscoelasticCapillarPM.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticCapillarPM.hpp b/pkg/dem/ViscoelasticCapillarPM.hpp
index 124e172..85441ce 100644
--- a/pkg/dem/ViscoelasticCapillarPM.hpp
+++ b/pkg/dem/ViscoelasticCapillarPM.hpp
@@ -29,12 +29,12 @@ class ViscElCapPhys : public ViscElPhys{
 	typedef Real (* CapillarFunction)(const ScGeom& geom, ViscElCapPhys& phys);
 	public:
 		virtual ~ViscElCapPhys();
-		Real R;
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR(ViscElCapPhys,ViscElPhys,"IPhys created from :yref:`ViscElCapMat`, for use with :yref:`Law2_ScGeom_ViscElCapPhys_Basic`.",
 		((bool,Capillar,false,,"True, if capillar forces need to be added."))
 		((bool,liqBridgeCreated,false,,"Whether liquid bridge was created, only after a normal contact of spheres"))
 		((bool,liqBridgeActive,false,, "Whether liquid bridge is active at the moment"))
 		((Real,sCrit,false,,"Critical bridge length [m]"))
+		((Real,R,0.0,Attr::hidden,"Effective radius of the contact [m]"))
 		((Real,Vb,0.0,,"Liquid bridge volume [m^3]"))
 		((Real,gamma,0.0,,"Surface tension [N/m]"))
 		((Real,theta,0.0,,"Contact angle [rad]"))
-- 
2.43.0


From 4eb91f42fe785a0cee3d30a17444d0653bdcd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 23/88] fix: GlobalStiffnessTimeStepper does not start over
 when a saved simulation is loaded

---
 pkg/dem/GlobalStiffnessTimeStepper.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.hpp b/pkg/dem/GlobalStiffnessTimeStepper.hpp
index 94de675..0a7e98b 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.hpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.hpp
@@ -29,8 +29,7 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 		void computeStiffnesses(Scene*);
 
 		Real		newDt;
-		bool		computedSomething,
- 				computedOnce;
+		bool		computedSomething;
 		void findTimeStepFromBody(const shared_ptr<Body>& body, Scene * ncb);
 	
 	public :
@@ -46,8 +45,9 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 			((Real,timestepSafetyCoefficient,0.8,,"safety factor between the minimum eigen-period and the final assigned dt (less than 1)"))
 			((bool,densityScaling,false,,"|yupdate| don't modify this value if you don't plan to modify the scaling factor manually for some bodies. In most cases, it is enough to set :yref:`NewtonIntegrator::densityScaling` and let this one be adjusted automatically."))
 			((Real,targetDt,1,,"if :yref:`NewtonIntegrator::densityScaling` is active, this value will be used as the simulation  timestep and the scaling will use this value of dt as the target value. The value of targetDt is arbitrary and should have no effect in the result in general. However if some bodies have imposed velocities, for instance, they will move more or less per each step depending on this value."))
-			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution.")),
-			computedOnce=false;)
+			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution."))
+			((bool,computedOnce,false,Attr::hidden,"Whether a timestep was computed already")),
+			computedSomething=false;)
 		DECLARE_LOGGER;
 };
 
-- 
2.43.0


From 9846c624e89be68f73f7f054c1ed8b9fd506af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:54 +0000
Subject: [PATCH 24/88] fix: sphere with its centre inside a box: the relative
 velocity is the one at the contact point, also across a periodic boundary

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 24a1884..f582aff 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -81,8 +81,8 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		 *
 		 *
 		 */
-		pt1 = se32.position+normal*minCBoxDist;
-		pt2 = se32.position-normal*s->radius;
+		pt1 = se32.position+shift2+normal*minCBoxDist;
+		pt2 = se32.position+shift2-normal*s->radius;
 		Vector3r normal = pt1-pt2; normal.normalize();
 		bool isNew=!c->geom;
 		if (isNew) scm = shared_ptr<ScGeom>(new ScGeom());
@@ -96,7 +96,7 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		scm->radius1 = s->radius;
 		scm->radius2 = s->radius;
 		c->geom = scm;
-		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,true);
+		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,false/*avoidGranularRatcheting only for sphere-sphere*/);
 	} else { // outside
 		Vector3r cOnBox_box = boxAxisT*cOnBox_boxLocal; // projection of sphere's center on closest box surface - relative to box's origin, but GLOBAL orientation!
 		Vector3r cOnBox_sphere = cOnBox_box-relPos21; // same, but origin in sphere's center
-- 
2.43.0


From 05548ec66b5b1a7e3e043ea900cdf7d87216bbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 25/88] fix: Ig2_Facet_Sphere_L3Geom finds the closest point of
 obtuse facets

---
 pkg/dem/L3Geom.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 7afa744..6e54716 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -232,9 +232,16 @@ bool Ig2_Facet_Sphere_L3Geom::go(const shared_ptr<Shape>& s1, const shared_ptr<S
 			case 1: contactPt=getClosestSegmentPt(planarPt,facet.vertices[0],facet.vertices[1]); break; // +-- (n1)
 			case 2: contactPt=getClosestSegmentPt(planarPt,facet.vertices[1],facet.vertices[2]); break; // -+- (n2)
 			case 4: contactPt=getClosestSegmentPt(planarPt,facet.vertices[2],facet.vertices[0]); break; // --+ (n3)
-			case 3: contactPt=facet.vertices[1]; break; // ++- (v1)
-			case 5: contactPt=facet.vertices[0]; break; // +-+ (v0)
-			case 6: contactPt=facet.vertices[2]; break; // -++ (v2)
+			case 3: case 5: case 6: { // ++- (around v1), +-+ (around v0), -++ (around v2); not always the vertex, if the angle is obtuse
+				bool first=true;
+				for(int i=0; i<3; i++){
+					if(normDotPt[i]<=0) continue;
+					Vector3r pt=getClosestSegmentPt(planarPt,facet.vertices[i],facet.vertices[(i+1)%3]);
+					if(first || (planarPt-pt).squaredNorm()<(planarPt-contactPt).squaredNorm()) contactPt=pt;
+					first=false;
+				}
+				break;
+			}
 			case 7: throw logic_error("Ig2_Facet_Sphere_L3Geom: Impossible sphere-facet intersection (all points are outside the edges). (please report bug)"); // +++ (impossible)
 			default: throw logic_error("Ig2_Facet_Sphere_L3Geom: Nonsense intersection value. (please report bug)");
 		}
-- 
2.43.0


From 0c20a6d4868915a21d906f20341c5d24779ccba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:58 +0000
Subject: [PATCH 26/88] fix: torque of L3Geom contacts on facets and walls

---
 pkg/dem/L3Geom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 6e54716..6d6ea29 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -23,6 +23,8 @@ void L3Geom::applyLocalForceTorque(const Vector3r& localF, const Vector3r& local
 	Vector2r foo; // avoid undefined ~Vector2r with clang?
 	Vector3r globF=trsf.transpose()*localF; // trsf is orthonormal, therefore inverse==transpose
 	Vector3r x1c(normal*(refR1+.5*u[0])), x2c(-normal*(refR2+.5*u[0]));
+	// walls and facets have no reference radius, the branch goes from their position
+	if(refR1<=0) x1c=contactPoint+.5*u[0]*normal-Body::byId(I->getId1(),scene)->state->pos;
 	if(nsp){ nsp->normalForce=normal*globF.dot(normal); nsp->shearForce=globF-nsp->normalForce; }
 	Vector3r globT=Vector3r::Zero();
 	if(localT!=Vector3r::Zero()){	globT=trsf.transpose()*localT; }
-- 
2.43.0


From abbce29c8fa8d63ca70f63c1339820868fff75ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:16 +0000
Subject: [PATCH 27/88] fix: bounds of spheres contain them in cells skewed
 along several axes

---
 pkg/common/Bo1_Aabb.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..d287748 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -21,14 +21,8 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 	}
 	// adjust box size along axes so that sphere doesn't stick out of the box even if sheared (i.e. parallelepiped)
 	if(scene->cell->hasShear()) {
-		Vector3r refHalfSize(halfSize);
-		const Vector3r& cos=scene->cell->getCos();
-		for(int i=0; i<3; i++){
-			//cerr<<"cos["<<i<<"]"<<cos[i]<<" ";
-			int i1=(i+1)%3,i2=(i+2)%3;
-			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
-			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
-		}
+		const Matrix3r& unshear=scene->cell->getUnshearTrsf();
+		for(int i=0; i<3; i++) halfSize[i]*=unshear.row(i).norm();
 	}
 	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
-- 
2.43.0


From 913cd09685fbdb36e09d5ae01ba08c050174b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:16 +0000
Subject: [PATCH 28/88] fix: verlet distance covers the displacement of bodies
 in skewed cells

---
 pkg/common/Dispatching.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 604c24a..fe8a710 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -52,8 +52,11 @@ void BoundDispatcher::processBody(const shared_ptr<Body>& b)
 		b->bound->lastUpdateIter=scene->iter;
 		if(sweepLength>0){			
 			Aabb* aabb=YADE_CAST<Aabb*>(b->bound.get());
-			aabb->min-=Vector3r(sweepLength,sweepLength,sweepLength);
-			aabb->max+=Vector3r(sweepLength,sweepLength,sweepLength);
+			Vector3r sweep(sweepLength,sweepLength,sweepLength);
+			// bounds are in unsheared coordinates, the displacement of bodies is not
+			if(scene->isPeriodic && scene->cell->hasShear()) sweep=(scene->cell->getUnshearTrsf().cwiseAbs()*sweep).eval();
+			aabb->min-=sweep;
+			aabb->max+=sweep;
 		}
 	}
 
-- 
2.43.0


From 298d7ff3d12c7a7cf9fbb0aeabc49ce9e67bc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:15 +0000
Subject: [PATCH 29/88] fix: orientation of a tetrahedron is a rotation onto
 its principal axes

---
 pkg/dem/Tetra.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dem/Tetra.cpp b/pkg/dem/Tetra.cpp
index af89d6b..e48ab3f 100644
--- a/pkg/dem/Tetra.cpp
+++ b/pkg/dem/Tetra.cpp
@@ -1152,6 +1152,7 @@ Quaternionr TetrahedronWithLocalAxesPrincipal(shared_ptr<Body>& tetraBody){
 	Matrix3r I_old=TetrahedronInertiaTensor(tMold->v); //≡TetrahedronCentralInertiaTensor
 	Matrix3r I_rot(Matrix3r::Zero()), I_new(Matrix3r::Zero()); 
 	matrixEigenDecomposition(I_old,I_rot,I_new);
+	if(I_rot.determinant()<0) I_rot.col(0)*=-1; // the eigenvectors may form a left-handed basis, which is no rotation
 	Quaternionr I_Qrot(I_rot);
 	//! @fixme from right to left: rotate by I_rot, then add original rotation (?!!)
 	rbp->se3.orientation=rbp->se3.orientation*I_Qrot;
-- 
2.43.0


From cc78b4bd04382999786414eb03549458319c4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:15 +0000
Subject: [PATCH 30/88] fix: rotation of non-spherical bodies counts when
 deciding whether bounds are still valid

---
 core/Bound.hpp               |  1 +
 pkg/common/Dispatching.cpp   |  1 +
 pkg/dem/NewtonIntegrator.cpp | 10 ++++++++++
 3 files changed, 12 insertions(+)

diff --git a/core/Bound.hpp b/core/Bound.hpp
index 71ae465..694408c 100644
--- a/core/Bound.hpp
+++ b/core/Bound.hpp
@@ -24,6 +24,7 @@ class Bound: public Serializable, public Indexable{
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(Bound,Serializable,"Object bounding part of space taken by associated body; might be larger, used to optimalize collision detection",
 		((int,lastUpdateIter,0,Attr::readonly,"record iteration of last reference position update |yupdate|"))
 		((Vector3r,refPos,Vector3r(NaN,NaN,NaN),Attr::readonly,"Reference position, updated at current body position each time the bound dispatcher update bounds |yupdate|"))
+		((Quaternionr,refOri,Quaternionr::Identity(),Attr::readonly,"Reference orientation, updated together with :yref:`Bound::refPos` |yupdate|"))
 // 		((bool,isBounding,false,Attr::readonly,"A flag used to tell when the body moves out of bounds - only used if oriVerlet striding is active :yref:`BoundDispatcher::updatingDispFactor`>0 |yupdate|"))
 		((Real,sweepLength,0, Attr::readonly,"The length used to increase the bounding boxe size, can be adjusted on the basis of previous displacement if :yref:`BoundDispatcher::targetInterv`>0. |yupdate|"))
 		((Vector3r,color,Vector3r(1,1,1),,"Color for rendering this object"))
diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index fe8a710..c937230 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -49,6 +49,7 @@ void BoundDispatcher::processBody(const shared_ptr<Body>& b)
 			else sweepLength=0;
 		} else sweepLength=sweepDist; 
 		b->bound->refPos=b->state->pos;
+		b->bound->refOri=b->state->ori;
 		b->bound->lastUpdateIter=scene->iter;
 		if(sweepLength>0){			
 			Aabb* aabb=YADE_CAST<Aabb*>(b->bound.get());
diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index a130a1b..8ab0fb0 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -79,6 +79,16 @@ void NewtonIntegrator::saveMaximaDisplacement(const shared_ptr<Body>& b){
 	if (!b->bound) return;//clumps for instance, have no bounds, hence not saved
 	Vector3r disp=b->state->pos-b->bound->refPos;
 	Real maxDisp=max(std::abs(disp[0]),max(std::abs(disp[1]),std::abs(disp[2])));
+	// the bounds of non-spherical bodies change with their rotation as well
+	if(b->shape && b->shape->getClassIndex()!=Sphere::getClassIndexStatic() && !b->state->angVel.isZero(0)){
+		const Bound& bound=*b->bound;
+		const bool sheared=scene->isPeriodic && scene->cell->hasShear();
+		const Vector3r refPos=sheared ? scene->cell->unshearPt(bound.refPos) : bound.refPos;
+		const Vector3r corner=(bound.max-refPos).cwiseMax(refPos-bound.min);
+		// distance from the center to the farthest point of the bound (overestimated in sheared cells)
+		const Real radius=sheared ? corner.sum() : corner.norm();
+		maxDisp+=radius*AngleAxisr(bound.refOri.conjugate()*b->state->ori).angle();
+	}
 	if (!maxDisp || maxDisp<b->bound->sweepLength) {/*b->bound->isBounding = (updatingDispFactor>0 && (updatingDispFactor*maxDisp)<b->bound->sweepLength);*/
 	maxDisp=0.5;//not 0, else it will be seen as "not updated" by the collider, but less than 1 means no colliding
 	}
-- 
2.43.0


From d3b6cc550fc5df23217c9c338267d3f7fd6090dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:20 +0000
Subject: [PATCH 31/88] fix: functions over all bodies skip erased ones

---
 pkg/dem/Shop_01.cpp | 7 +++++--
 pkg/dem/Shop_02.cpp | 9 +++++++--
 py/_utils.cpp       | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 31a79a0..d4e49d0 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -189,6 +189,7 @@ Vector3r Shop::momentum() {
 	Vector3r ret = Vector3r::Zero();
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(!b) continue;
 		ret += b->state->mass * b->state->vel;
 	}
 	return ret;
@@ -199,6 +200,7 @@ Vector3r Shop::angularMomentum(Vector3r origin) {
 	Scene* scene=Omega::instance().getScene().get();
 	Matrix3r T,Iloc;
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
+		if(!b) continue;
 		ret += (b->state->pos-origin).cross(b->state->mass * b->state->vel);
 		ret += b->state->angMom;
 	}
@@ -263,7 +265,7 @@ void Shop::saveSpheresToFile(string fname){
 	if(!f.good()) throw runtime_error("Unable to open file `"+fname+"'");
 
 	FOREACH(shared_ptr<Body> b, *scene->bodies){
-		if (!b->isDynamic()) continue;
+		if (!b || !b->isDynamic()) continue;
 		shared_ptr<Sphere>	intSph=YADE_PTR_DYN_CAST<Sphere>(b->shape);
 		if(!intSph) continue;
 		const Vector3r& pos=b->state->pos;
@@ -318,6 +320,7 @@ Real Shop::getPorosityAlt(){
 	Real inf=std::numeric_limits<Real>::infinity();
 	Vector3r minimum(inf,inf,inf),maximum(-inf,-inf,-inf);
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(b->shape); if(!s) continue;
 		Vector3r rrr(s->radius,s->radius,s->radius);
 		minimum=minimum.cwiseMin(b->state->pos-(rrr));
@@ -351,7 +354,7 @@ Real Shop::getVoxelPorosity(const shared_ptr<Scene>& _scene, int _resolution, Ve
 	Vector3r start(_start), size(_end - _start);
 	
 	FOREACH(shared_ptr<Body> bi, *scene->bodies){
-		if((bi)->isClump()) continue;
+		if(!bi || (bi)->isClump()) continue;
 		const shared_ptr<Body>& b = bi;
 		if ( b->isDynamic() || b->isClumpMember() ) {
 			const shared_ptr<Sphere>& sphere = YADE_PTR_CAST<Sphere> ( b->shape );
diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index ce98a2a..dfba2dc 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -381,6 +381,7 @@ py::list Shop::getDynamicStress()
 	for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+		if(!b) { kineticStressTensors.append(Matrix3r(Matrix3r::Zero())); continue; }
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
         Sphere * s = YADE_CAST<Sphere*>(b->shape.get());
@@ -413,6 +414,7 @@ Matrix3r Shop::getTotalDynamicStress(Real volume)
     for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
+		if(!b) continue;
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
         kineticStressTensor+=b->state->mass*vFluct*vFluct.transpose();
@@ -438,6 +440,7 @@ py::tuple Shop::getStressProfile(Real volume, int nCell, Real dz, Real zRef, vec
 	//Dynamic contribution to the stress tensor
 	//
 	FOREACH(const shared_ptr<Body>& b,*Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		int Np = floor((b->state->pos[2]-zRef)/dz);	//Define the layer number with 0 corresponding to zRef
 		if ((Np>=0)&&(Np<nCell)){	//To avoid non defined vPartAverage
 			//Velocity fluctuation wrt the average field
@@ -628,6 +631,7 @@ py::tuple Shop::getDepthProfiles(Real vCell, int nCell, Real dz, Real zRef,bool
 
 	//Loop over the particles
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(b->shape); if(!s) continue;
 		if (activateCond==true){
 			const Sphere* sphere = dynamic_cast<Sphere*>(b->shape.get());
@@ -692,6 +696,7 @@ py::tuple Shop::getDepthProfiles_center(Real vCell, int nCell, Real dz, Real zRe
 
 	//Loop over the particles
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(b->shape); if(!s) continue;
 		if (activateCond==true){
 			const Sphere* sphere = dynamic_cast<Sphere*>(b->shape.get());
@@ -800,7 +805,7 @@ void Shop::setContactFriction(Real angleRad){
 	Scene* scene = Omega::instance().getScene().get();
 	shared_ptr<BodyContainer>& bodies = scene->bodies;
 	FOREACH(const shared_ptr<Body>& b,*scene->bodies){
-		if(b->isClump()) continue;
+		if(!b || b->isClump()) continue;
 		if (b->isDynamic())
 		YADE_PTR_CAST<FrictMat> (b->material)->frictionAngle = angleRad;
 	}
@@ -821,7 +826,7 @@ void Shop::growParticles(Real multiplier, bool updateMass, bool dynamicOnly)
 	Scene* scene = Omega::instance().getScene().get();
 	const int sphereIdx = Sphere::getClassIndexStatic();
 	FOREACH(const shared_ptr<Body>& b,*scene->bodies){
-		if (dynamicOnly && !b->isDynamic()) continue;
+		if(!b || (dynamicOnly && !b->isDynamic())) continue;
 		//We grow only spheres and clumps 
 		if(b->isClump() or sphereIdx == b->shape->getClassIndex()){			
 			if (updateMass) {b->state->mass*=pow(multiplier,3); b->state->inertia*=pow(multiplier,5);}
diff --git a/py/_utils.cpp b/py/_utils.cpp
index 17c0019..bbbd513 100644
--- a/py/_utils.cpp
+++ b/py/_utils.cpp
@@ -8,6 +8,7 @@ py::tuple negPosExtremeIds(int axis, Real distFactor){
 	Real minCoord=extrema[0][axis],maxCoord=extrema[1][axis];
 	py::list minIds,maxIds;
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(b->shape); if(!s) continue;
 		if(b->state->pos[axis]-s->radius*distFactor<=minCoord) minIds.append(b->getId());
 		if(b->state->pos[axis]+s->radius*distFactor>=maxCoord) maxIds.append(b->getId());
@@ -20,6 +21,7 @@ py::tuple coordsAndDisplacements(int axis,py::tuple Aabb){
 	if(useBB){bbMin=py::extract<Vector3r>(Aabb[0])();bbMax=py::extract<Vector3r>(Aabb[1])();}
 	py::list retCoord,retDispl;
 	FOREACH(const shared_ptr<Body>&b, *Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		if(useBB && !isInBB(b->state->pos,bbMin,bbMax)) continue;
 		retCoord.append(b->state->pos[axis]);
 		retDispl.append(b->state->pos[axis]-b->state->refPos[axis]);
@@ -30,6 +32,7 @@ py::tuple coordsAndDisplacements(int axis,py::tuple Aabb){
 void setRefSe3(){
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body>& b, *scene->bodies){
+		if(!b) continue;
 		b->state->refPos=b->state->pos;
 		b->state->refOri=b->state->ori;
 	}
@@ -122,7 +125,7 @@ py::dict getViscoelasticFromSpheresInteraction(Real tc, Real en, Real es)
 /* reset highlight of all bodies */
 void highlightNone(){
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
-		if(!b->shape) continue;
+		if(!b || !b->shape) continue;
 		b->shape->highlight=false;
 	}
 }
@@ -193,7 +196,7 @@ void wireSome(string filter){
 	int mode=(filter=="none"?none:(filter=="all"?all:(filter=="noSpheres"?noSpheres:unknown)));
 	if(mode==unknown) { LOG_WARN("Unknown wire filter `"<<filter<<"', using noSpheres instead."); mode=noSpheres; }
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
-		if(!b->shape) return;
+		if(!b || !b->shape) continue;
 		bool wire;
 		switch(mode){
 			case none: wire=false; break;
@@ -256,6 +259,7 @@ Real approxSectionArea(Real coord, int axis){
 	const Real sqrt3=sqrt(3);
 	Vector2r mm,mx; int i=0;
 	FOREACH(const shared_ptr<Body>& b, *Omega::instance().getScene()->bodies){
+		if(!b) continue;
 		Sphere* s=dynamic_cast<Sphere*>(b->shape.get());
 		if(!s) continue;
 		const Vector3r& pos(b->state->pos); const Real r(s->radius);
-- 
2.43.0


From 4a189780c8ef4bf5cc135770db5cc254733408b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:42 +0000
Subject: [PATCH 32/88] fix: dynamic stress has the documented sign, works for
 all shapes and counts clumps once

---
 pkg/dem/Shop_02.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index dfba2dc..2a126a1 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -384,12 +384,12 @@ py::list Shop::getDynamicStress()
 		if(!b) { kineticStressTensors.append(Matrix3r(Matrix3r::Zero())); continue; }
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
-        Sphere * s = YADE_CAST<Sphere*>(b->shape.get());
+        Sphere * s = dynamic_cast<Sphere*>(b->shape.get());
         
         if(s)
-            kineticStressTensors.append(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose());
+            kineticStressTensors.append(Matrix3r(-(3.0/(4.0*M_PI*pow(s->radius,3)))*b->state->mass*vFluct*vFluct.transpose()));
         else
-            kineticStressTensors.append(Matrix3r::Zero());
+            kineticStressTensors.append(Matrix3r(Matrix3r::Zero()));
 	}
 	
 	return kineticStressTensors;
@@ -414,10 +414,10 @@ Matrix3r Shop::getTotalDynamicStress(Real volume)
     for(unsigned int i(0);i<scene->bodies->size();i++)
     {
         const shared_ptr<Body>& b = Body::byId(i, scene);
-		if(!b) continue;
+		if(!b || b->isClumpMember()) continue; // members are part of their clump
 		Vector3r vFluct = (scene->isPeriodic) ? scene->cell->bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad) : b->state->vel;
 		
-        kineticStressTensor+=b->state->mass*vFluct*vFluct.transpose();
+        kineticStressTensor-=b->state->mass*vFluct*vFluct.transpose();
 	}
 	
 	return kineticStressTensor/volume;
-- 
2.43.0


From d0ebaf3629c7b3be5cb230fea4ce8112907fab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:42 +0000
Subject: [PATCH 33/88] fix: momentum counts clumps once, angular momentum
 includes the spin of spheres

---
 pkg/dem/Shop_01.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index d4e49d0..7346c7c 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -189,7 +189,7 @@ Vector3r Shop::momentum() {
 	Vector3r ret = Vector3r::Zero();
 	Scene* scene=Omega::instance().getScene().get();
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
-		if(!b) continue;
+		if(!b || b->isClumpMember()) continue; // members are part of their clump
 		ret += b->state->mass * b->state->vel;
 	}
 	return ret;
@@ -200,9 +200,11 @@ Vector3r Shop::angularMomentum(Vector3r origin) {
 	Scene* scene=Omega::instance().getScene().get();
 	Matrix3r T,Iloc;
 	FOREACH(const shared_ptr<Body> b, *scene->bodies){
-		if(!b) continue;
+		if(!b || b->isClumpMember()) continue;
 		ret += (b->state->pos-origin).cross(b->state->mass * b->state->vel);
-		ret += b->state->angMom;
+		// angMom is only integrated for aspherical bodies
+		if(b->isAspherical()) ret += b->state->angMom;
+		else ret += b->state->inertia.cwiseProduct(b->state->angVel);
 	}
 	return ret;
 }
-- 
2.43.0


From df3f54420a326e7ac7d93889a20c5c3b8cd6dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:42 +0000
Subject: [PATCH 34/88] fix: rotated facets in sumFacetNormalForces and
 setNewVerticesOfFacet, which also updates normals

---
 py/_utils.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/py/_utils.cpp b/py/_utils.cpp
index bbbd513..e3f40eb 100644
--- a/py/_utils.cpp
+++ b/py/_utils.cpp
@@ -180,11 +180,13 @@ Real sumFacetNormalForces(vector<Body::id_t> ids, int axis){
 	shared_ptr<Scene> rb=Omega::instance().getScene(); rb->forces.sync();
 	Real ret=0;
 	FOREACH(const Body::id_t id, ids){
-		Facet* f=YADE_CAST<Facet*>(Body::byId(id,rb)->shape.get());
-		if(axis<0) ret+=rb->forces.getForce(id).dot(f->normal);
+		const shared_ptr<Body>& b=Body::byId(id,rb);
+		Facet* f=YADE_CAST<Facet*>(b->shape.get());
+		const Vector3r normal=b->state->ori*f->normal; // in global coordinates
+		if(axis<0) ret+=rb->forces.getForce(id).dot(normal);
 		else {
 			Vector3r ff=rb->forces.getForce(id); ff[axis]=0;
-			ret+=ff.dot(f->normal);
+			ret+=ff.dot(normal);
 		}
 	}
 	return ret;
@@ -373,9 +375,12 @@ void Shop__calm(int mask){ return Shop::calm(Omega::instance().getScene(), mask)
 void setNewVerticesOfFacet(const shared_ptr<Body>& b, const Vector3r& v1, const Vector3r& v2, const Vector3r& v3) {
 	Vector3r center = inscribedCircleCenter(v1,v2,v3);
 	Facet* facet = YADE_CAST<Facet*>(b->shape.get());
-	facet->vertices[0] = v1 - center;
-	facet->vertices[1] = v2 - center;
-	facet->vertices[2] = v3 - center;
+	// vertices are given in global coordinates, but stored in local ones
+	const Quaternionr toLocal=b->state->ori.conjugate();
+	facet->vertices[0] = toLocal*(v1 - center);
+	facet->vertices[1] = toLocal*(v2 - center);
+	facet->vertices[2] = toLocal*(v3 - center);
+	facet->postLoad(*facet); // normals, area
 	b->state->pos = center;
 }
 
-- 
2.43.0


From 10040fa0282c43842772435b02f2e2cfc85d20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:02 +0000
Subject: [PATCH 35/88] fix: getDepthProfiles assigns each layer the part of
 the sphere which lies in it

---
 pkg/dem/Shop_02.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index 2a126a1..197c370 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -648,8 +648,9 @@ py::tuple Shop::getDepthProfiles(Real vCell, int nCell, Real dz, Real zRef,bool
 		numLayer = minZ;
 		while (numLayer<=maxZ){
 			if ((numLayer>=0)&&(numLayer<nCell)){ //average under zRef does not interest us, avoid also negative values not compatible with the evaluation of volPart
-				zInf=(numLayer-Np-1)*dz + deltaCenter;
-				zSup=(numLayer-Np)*dz + deltaCenter;
+				// boundaries of the layer, relative to the center of the particle
+				zInf=(numLayer-Np)*dz - deltaCenter;
+				zSup=(numLayer-Np+1)*dz - deltaCenter;
 				if (zInf<-s->radius) zInf = -s->radius;
 				if (zSup>s->radius) zSup = s->radius;
 
-- 
2.43.0


From ff941eae034d95f6cef5715144750c58ed4d2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:21 +0000
Subject: [PATCH 36/88] fix: unbalancedForce counts contact forces of clumps
 before NewtonIntegrator also with gravity

---
 pkg/dem/Shop_01.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 7346c7c..d6d5103 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -129,7 +129,7 @@ Real Shop::unbalancedForce(bool useMaxForce, Scene* _rb){
 	FOREACH(const shared_ptr<Body>& b, *rb->bodies){
 		if(!b || b->isClumpMember() || !b->isDynamic()) continue;
 		currF=(rb->forces.getForce(b->id)+b->state->mass*gravity).norm();
-		if(b->isClump() && currF==0){ // this should not happen unless the function is called by an engine whose position in the loop is before Newton (with the exception of bodies which really have null force), because clumps forces are updated in Newton. Typical triaxial loops are using such ordering unfortunately (triaxEngine before Newton). So, here we make sure that they will get correct unbalance. In the future, it is better for optimality to check unbalancedF inside scripts at the end of loops, so that this "if" is never active.
+		if(b->isClump() && rb->forces.getForce(b->id)==Vector3r::Zero()){ // this should not happen unless the function is called by an engine whose position in the loop is before Newton (with the exception of bodies which really have null force), because clumps forces are updated in Newton. Typical triaxial loops are using such ordering unfortunately (triaxEngine before Newton). So, here we make sure that they will get correct unbalance. In the future, it is better for optimality to check unbalancedF inside scripts at the end of loops, so that this "if" is never active.
 			Vector3r f(rb->forces.getForce(b->id)),m(Vector3r::Zero());
 			b->shape->cast<Clump>().addForceTorqueFromMembers(b->state.get(),rb,f,m);
 			currF=(f+b->state->mass*gravity).norm();
-- 
2.43.0


From e9d55bea940d3f4f2f0f73ce2f6f4000f6f53705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:09 +0000
Subject: [PATCH 37/88] fix: voxelPorosity counts fixed spheres and skips other
 shapes

---
 pkg/dem/Shop_01.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index d6d5103..97ee460 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -358,8 +358,8 @@ Real Shop::getVoxelPorosity(const shared_ptr<Scene>& _scene, int _resolution, Ve
 	FOREACH(shared_ptr<Body> bi, *scene->bodies){
 		if(!bi || (bi)->isClump()) continue;
 		const shared_ptr<Body>& b = bi;
-		if ( b->isDynamic() || b->isClumpMember() ) {
-			const shared_ptr<Sphere>& sphere = YADE_PTR_CAST<Sphere> ( b->shape );
+		const shared_ptr<Sphere> sphere = YADE_PTR_DYN_CAST<Sphere> ( b->shape );
+		if ( sphere ) {
 			Real r       = sphere->radius;
 			Real rr      = r*r;
 			Vector3r pos = b->state->se3.position;
-- 
2.43.0


From a592daa7c74fc3c40025c3a9272b008a377ebc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:56 +0000
Subject: [PATCH 38/88] fix: O.stopAtTime stops the simulation at the first
 step which reaches that time

---
 core/SimulationFlow.cpp    | 4 +++-
 py/wrapper/yadeWrapper.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..ab342fe 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,10 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real timeBefore=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	// time advances by dt, and usually does not hit stopAtTime exactly: stop as soon as it is reached
+	if(scene->stopAtTime>0 && timeBefore<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fbef1de..a501c3b 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -625,7 +625,7 @@ class pyOmega{
 	long stopAtIter_get(){return OMEGA.getScene()->stopAtIter; }
 	void stopAtIter_set(long s){OMEGA.getScene()->stopAtIter=s; }
 	Real stopAtTime_get(){return OMEGA.getScene()->stopAtTime; }
-	void stopAtTime_set(long s){OMEGA.getScene()->stopAtTime=s; }
+	void stopAtTime_set(Real s){OMEGA.getScene()->stopAtTime=s; }
 
 
 	bool timingEnabled_get(){return TimingInfo::enabled;}
-- 
2.43.0


From 11c35e54f51049ff417f74bafbe3d6a7c811004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 39/88] fix: O.wait() returns only after the last step of a
 loop told to stop is over

---
 core/ThreadRunner.cpp      | 12 ++++++++++--
 core/ThreadRunner.hpp      |  8 +++++++-
 py/wrapper/yadeWrapper.cpp |  4 ++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/ThreadRunner.cpp b/core/ThreadRunner.cpp
index 621a911..be3153d 100644
--- a/core/ThreadRunner.cpp
+++ b/core/ThreadRunner.cpp
@@ -20,17 +20,25 @@ void ThreadRunner::run()
 {
 	// this is the body of execution of separate thread
 	boost::mutex::scoped_lock lock(m_runmutex);
+	m_runner=std::this_thread::get_id();
 	try{
 		workerThrew=false;
 		while(looping()) {
 			call();
-			if(m_thread_worker->shouldTerminate()){ stop(); return; }
+			if(m_thread_worker->shouldTerminate()){ stop(); break; }
 		}
 	} catch (std::exception& e){
 		LOG_FATAL("Exception occured: "<<std::endl<<e.what());
 		workerException=std::exception(e); workerThrew=true;
-		stop(); return;
+		stop();
 	}
+	m_runner=std::thread::id();
+}
+
+void ThreadRunner::waitFinished()
+{
+	if(m_runner==std::this_thread::get_id()) return;
+	boost::mutex::scoped_lock lock(m_runmutex);
 }
 
 void ThreadRunner::call()
diff --git a/core/ThreadRunner.hpp b/core/ThreadRunner.hpp
index 7ea2004..20486a1 100644
--- a/core/ThreadRunner.hpp
+++ b/core/ThreadRunner.hpp
@@ -9,6 +9,8 @@
 #pragma once
 
 #include <boost/thread/mutex.hpp>
+#include <atomic>
+#include <thread>
 
 /*! 
 \brief	ThreadRunner takes care of starting/stopping (executing) the
@@ -50,13 +52,15 @@ class ThreadRunner
 		boost::mutex	m_boolmutex;
 		boost::mutex	m_callmutex;
 		boost::mutex	m_runmutex;
+		//! thread which executes run(), if any
+		std::atomic<std::thread::id>	m_runner;
 		void		run();
 		void		call();
 
 		DECLARE_LOGGER;
 
 	public :
-		ThreadRunner(ThreadWorker* c) : m_thread_worker(c), m_looping(false), workerThrew(false) {};
+		ThreadRunner(ThreadWorker* c) : m_thread_worker(c), m_looping(false), m_runner(std::thread::id()), workerThrew(false) {};
 		~ThreadRunner();
 
 		/// perform ThreadWorker::singleAction() in separate thread
@@ -69,6 +73,8 @@ class ThreadRunner
 		void pleaseTerminate();
 		/// precondition for the loop started with start().
 		bool looping();
+		/// wait until the loop started with start() has left its last singleAction() (immediate when called from within it)
+		void waitFinished();
 		//! if true, workerException is copy of the exception thrown by the worker
 		bool workerThrew;
 		//! last exception thrown by the worker, if any
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index a501c3b..7eb336e 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -646,8 +646,8 @@ class pyOmega{
 	void pause(){Py_BEGIN_ALLOW_THREADS; OMEGA.pause(); Py_END_ALLOW_THREADS; LOG_DEBUG("PAUSE!");}
 	void step() { if(OMEGA.isRunning()) throw runtime_error("Called O.step() while simulation is running."); OMEGA.getScene()->moveToNextTimeStep(); /* LOG_DEBUG("STEP!"); run(1); wait(); */ }
 	void wait(){
-		if(OMEGA.isRunning()){LOG_DEBUG("WAIT!");} else return;
-		timespec t1,t2; t1.tv_sec=0; t1.tv_nsec=40000000; /* 40 ms */ Py_BEGIN_ALLOW_THREADS; while(OMEGA.isRunning()) nanosleep(&t1,&t2); Py_END_ALLOW_THREADS;
+		if(!OMEGA.hasSimulationLoop()) return;
+		timespec t1,t2; t1.tv_sec=0; t1.tv_nsec=40000000; /* 40 ms */ Py_BEGIN_ALLOW_THREADS; while(OMEGA.isRunning()) nanosleep(&t1,&t2); /* the loop may be told to stop before its last step is over */ if(OMEGA.hasSimulationLoop()) OMEGA.simulationLoop->waitFinished(); Py_END_ALLOW_THREADS;
 		if(!OMEGA.simulationLoop->workerThrew) return;
 		LOG_ERROR("Simulation error encountered."); OMEGA.simulationLoop->workerThrew=false; throw OMEGA.simulationLoop->workerException;
 	}
-- 
2.43.0


From b763d6f72738d8030f8dea1d9ea78cca1911a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 40/88] fix: mpy workers send forces to master only when it
 expects them

---
 py/mpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/mpy.py b/py/mpy.py
index 0f278f7..6a32f29 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -356,7 +356,7 @@ def isendRecvForces():
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
-			comm.send(forces0, dest=0, tag=_FORCES_)
+			if len(forces0)>0: comm.send(forces0, dest=0, tag=_FORCES_) #master only expects messages from the subdomains it intersects
 		else: #master
 			receiveForces(O.subD.intersections[0])
 
-- 
2.43.0


From 2805cd818975ab1c3510c455c4aaadfc6abe1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 41/88] fix: mpy sendRecvStates refers to the current subdomain
 when C++ MPI is not used

---
 py/mpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/mpy.py b/py/mpy.py
index 6a32f29..bf00dc2 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -320,7 +320,7 @@ def sendRecvStates():
 			comm.send(genUpdatedStates(O.subD.intersections[k]), dest=k, tag=_ID_STATE_SHAPE_) #should be non-blocking if n>2, else lock?
 		else:
 			if not USE_CPP_MPI:
-				reqs.append(comm.isend(subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
+				reqs.append(comm.isend(O.subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
 			else:
 				O.subD.mpiSendStates(k)
 		for r in reqs: r.wait() #empty if USE_CPP_MPI
-- 
2.43.0


From 86daae659dd6f451c325f3887515dc41edeeed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 42/88] fix: inParallelepiped does not depend on the order in
 which the edges are given

---
 py/pack/_packPredicates.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 04d1825..f4472b9 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -134,6 +134,7 @@ public:
 	inParallelepiped(const Vector3r& o, const Vector3r& a, const Vector3r& b, const Vector3r& c){
 		Vector3r A(o), B(a), C(a+(b-o)), D(b), E(c), F(c+(a-o)), G(c+(a-o)+(b-o)), H(c+(b-o));
 		Vector3r x(B-A), y(D-A), z(E-A);
+		if(x.cross(y).dot(z)<0){ std::swap(B,D); std::swap(F,H); std::swap(x,y); } // make the edges right-handed, so that the normals point outwards
 		n[0]=-y.cross(z).normalized(); n[1]=-n[0]; pts[0]=A; pts[1]=B;
 		n[2]=-z.cross(x).normalized(); n[3]=-n[2]; pts[2]=A; pts[3]=D;
 		n[4]=-x.cross(y).normalized(); n[5]=-n[4]; pts[4]=A; pts[5]=E;
-- 
2.43.0


From 47038a7f74a27fbccd605abb9369ee64f2213b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 43/88] fix: notInNotch pads the lower edge of the notch like
 the upper one

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index f4472b9..569bf9c 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -266,7 +266,7 @@ public:
 		if(distDown   >=pad) return true;
 		if(distInPlane<0) return false;
 		if(distUp  >0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
-		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distUp,2))>=pad;
+		if(distDown>0) return sqrt(pow(distInPlane,2)+pow(distDown,2))>=pad;
 		// between both notch planes, closer to the edge than pad (distInPlane<pad)
 		return false;
 	}
-- 
2.43.0


From 1c4784d9a064a7e171c2920fb9b8fb9ee0d7ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 44/88] fix: inEllipsoid contains no point when padding exceeds
 its radius

---
 py/pack/_packPredicates.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 569bf9c..226e018 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -211,6 +211,7 @@ class inEllipsoid: public Predicate{
 public:
 	inEllipsoid(const Vector3r& _c, const Vector3r& _abc) {c=_c; abc=_abc;}
 	bool operator()(const Vector3r& pt, Real pad=0.) const {
+		if(pad>=abc.minCoeff()) return false; // nothing is left of the ellipsoid
 		//Define the ellipsoid X-coordinate of given Y and Z
 		Real x = sqrt((1-pow((pt[1]-c[1]),2)/((abc[1]-pad)*(abc[1]-pad))-pow((pt[2]-c[2]),2)/((abc[2]-pad)*(abc[2]-pad)))*((abc[0]-pad)*(abc[0]-pad)))+c[0]; 
 		Vector3r edgeEllipsoid(x,pt[1],pt[2]); // create a vector of these 3 coordinates
-- 
2.43.0


From 746106a50c4433f927a0340ab32c5985166bdc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 45/88] fix: symmetric difference of predicates keeps padding
 from the common part

---
 py/pack/_packPredicates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/pack/_packPredicates.cpp b/py/pack/_packPredicates.cpp
index 226e018..5cb32a3 100644
--- a/py/pack/_packPredicates.cpp
+++ b/py/pack/_packPredicates.cpp
@@ -88,7 +88,7 @@ PredicateDifference makeDifference(const py::object& A, const py::object& B){ re
 class PredicateSymmetricDifference: public PredicateBoolean{
 	public:
 		PredicateSymmetricDifference(const py::object _A, const py::object _B): PredicateBoolean(_A,_B){}
-		virtual bool operator()(const Vector3r& pt,Real pad) const {bool inA=obj2pred(A)(pt,pad), inB=obj2pred(B)(pt,pad); return (inA && !inB) || (!inA && inB);}
+		virtual bool operator()(const Vector3r& pt,Real pad) const {return (obj2pred(A)(pt,pad) && !obj2pred(B)(pt,-pad)) || (obj2pred(B)(pt,pad) && !obj2pred(A)(pt,-pad));}
 		virtual py::tuple aabb() const { 
 			Vector3r minA,maxA,minB,maxB; 
 			ttuple2vvec(obj2pred(A).aabb(),minA,maxA); 
-- 
2.43.0


From 903c34ab7a305b43863ba326ade17a52b1a5476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 46/88] fix: python predicates can be used in boolean
 operations

---
 py/pack/pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/pack/pack.py b/py/pack/pack.py
index be54fb5..8095922 100644
--- a/py/pack/pack.py
+++ b/py/pack/pack.py
@@ -166,7 +166,9 @@ if not (noPredicate):
   
   class inSpace(Predicate):
     """Predicate returning True for any points, with infinite bounding box."""
-    def __init__(self, _center=Vector3().Zero): self._center=_center
+    def __init__(self, _center=Vector3().Zero):
+      super(inSpace,self).__init__()
+      self._center=_center
     def aabb(self):
       inf=float('inf'); return Vector3(-inf,-inf,-inf),Vector3(inf,inf,inf)
     def center(self): return self._center
@@ -177,6 +179,7 @@ if not (noPredicate):
   class inHalfSpace(Predicate):
     """Predicate returning True  any points, with infinite bounding box."""
     def __init__(self, _center=Vector3().Zero, _dir=Vector3(1,0,0)):
+      super(inHalfSpace,self).__init__()
       self._center = Vector3(_center)
       self._dir = Vector3(_dir)
       assert self._dir.norm() > 0., "Direction has to be nonzero vector"
@@ -205,6 +208,7 @@ if not (noPredicate):
 
   class inConvexPolyhedron(Predicate):
     def __init__(self,planes):
+      super(inConvexPolyhedron,self).__init__()
       self._inHalfSpaces = [inHalfSpace(c,d) for c,d in planes]
       self._min, self._max = self._computeAabb()
     def _computeAabb(self):
-- 
2.43.0


From 7c494496600eab89ddbd9055ef732be48a55b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 47/88] fix: SpherePack does not keep periodicity of the data
 it discards

---
 pkg/dem/SpherePack.cpp | 11 ++++++-----
 pkg/dem/SpherePack.hpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 5e30fac..5e1c99a 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -22,6 +22,7 @@ namespace py=boost::python;
 
 void SpherePack::fromList(const py::list& l){
 	pack.clear();
+	cellSize=Vector3r::Zero(); isPeriodic=false;
 	size_t len=py::len(l);
 	for(size_t i=0; i<len; i++){
 		const py::tuple& t=py::extract<py::tuple>(l[i]);
@@ -39,7 +40,7 @@ void SpherePack::fromLists(const vector<Vector3r>& centers, const vector<Real>&
 	for(size_t i=0; i<l; i++){
 		add(centers[i],radii[i]);
 	}
-	cellSize=Vector3r::Zero();
+	cellSize=Vector3r::Zero(); isPeriodic=false;
 }
 
 py::list SpherePack::toList() const {
@@ -52,8 +53,10 @@ void SpherePack::fromFile(string file) {
 	typedef boost::tuple<Vector3r,Real,int> tupleVector3rRealInt;
 	vector<tupleVector3rRealInt> ss;
 	Vector3r mn,mx;
+	cellSize=Vector3r::Zero(); // only set by files with periodic packings
 	ss=Shop::loadSpheresFromFile(file,mn,mx,&cellSize);
 	pack.clear();
+	isPeriodic=(cellSize!=Vector3r::Zero());
 	FOREACH(const tupleVector3rRealInt& s, ss) pack.push_back(Sph(boost::get<0>(s),boost::get<1>(s),boost::get<2>(s)));
 }
 
@@ -77,10 +80,8 @@ void SpherePack::fromSimulation() {
 		if(!intSph) continue;
 		pack.push_back(Sph(b->state->pos,intSph->radius,(b->isClumpMember()?b->clumpId:-1)));
 	}
-	if(scene->isPeriodic) {
-		cellSize=scene->cell->getSize();
-		isPeriodic = true;
-	}
+	isPeriodic=scene->isPeriodic;
+	cellSize=isPeriodic?scene->cell->getSize():Vector3r(Vector3r::Zero());
 }
 
 long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz, int num, bool periodic, Real porosity, const vector<Real>& psdSizes, const vector<Real>& psdCumm, bool distributeMass, int seed, Matrix3r hSize){
diff --git a/pkg/dem/SpherePack.hpp b/pkg/dem/SpherePack.hpp
index 43123f0..aa05161 100644
--- a/pkg/dem/SpherePack.hpp
+++ b/pkg/dem/SpherePack.hpp
@@ -36,7 +36,7 @@ public:
 	Real appliedPsdScaling;//a scaling factor that can be applied on size distribution
 	bool isPeriodic;
 	SpherePack(): cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) {};
-	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()){ fromList(l); }
+	SpherePack(const boost::python::list& l):cellSize(Vector3r::Zero()), appliedPsdScaling(1.), isPeriodic(0) { fromList(l); }
 	// add single sphere
 	void add(const Vector3r& c, Real r){ pack.push_back(Sph(c,r)); }
 
-- 
2.43.0


From 1151d9f41aea8e8f3b0cdeac7aea19f96f74eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 48/88] fix: the seed given to makeCloud and makeClumpCloud is
 used by every call

---
 pkg/dem/SpherePack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 5e1c99a..fb568dd 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -88,6 +88,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 	isPeriodic = periodic;
 	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
 	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
+	if(seed!=0) randGen.seed(seed); // the generator is static, it must be told about seeds of other calls than the first one
 	vector<Real> psdRadii; // holds plain radii (rather than diameters), scaled down in some situations to get the target number
 	vector<Real> psdCumm2; // psdCumm but dimensionally transformed to match mass distribution	
 	Vector3r size=mx-mn;
@@ -336,6 +337,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	// random point coordinate generator, with non-zero margins if aperiodic
  	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
  	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
+	if(seed!=0) randGen.seed(seed); // the generator is static, it must be told about seeds of other calls than the first one
 	while(nGen<num || num<0){
 		int clumpChoice=(int)(rnd()*(clumps.size()-1e-20));
 		int tries=0;
-- 
2.43.0


From cd08b262e5ad05a6c704fa407baee93222bf67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:01 +0000
Subject: [PATCH 49/88] fix: makeCloud keeps spheres which are already in the
 packing and returns the number of those it created

---
 pkg/dem/SpherePack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index fb568dd..fb1999b 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -86,6 +86,7 @@ void SpherePack::fromSimulation() {
 
 long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz, int num, bool periodic, Real porosity, const vector<Real>& psdSizes, const vector<Real>& psdCumm, bool distributeMass, int seed, Matrix3r hSize){
 	isPeriodic = periodic;
+	const size_t initSize=pack.size(); // spheres already there are kept
 	static boost::minstd_rand randGen(seed!=0?seed:(int)TimingInfo::getNow(/* get the number even if timing is disabled globally */ true));
 	static boost::variate_generator<boost::minstd_rand&, boost::uniform_real<Real> > rnd(randGen, boost::uniform_real<Real>(0,1));
 	if(seed!=0) randGen.seed(seed); // the generator is static, it must be told about seeds of other calls than the first one
@@ -242,7 +243,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 						<<i<<" spheres were added, although you requested "<<num
 						<<". Trying again with porosity "<<nextPoro
 						<<". The size distribution is being scaled down");
-					pack.clear();
+					pack.resize(initSize,Sph(Vector3r::Zero(),0));
 					return makeCloud(mn, mx, -1., rRelFuzz, num, periodic, nextPoro,
 						psdSizes, psdCumm, distributeMass,seed,hSizeFound?hSize:Matrix3r::Zero());
 				} else {
@@ -254,7 +255,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 		}
 	}
 	if (appliedPsdScaling<1) LOG_WARN("The size distribution has been scaled down by a factor pack.appliedPsdScaling="<<appliedPsdScaling);
-	return pack.size();
+	return pack.size()-initSize;
 }
 
 void SpherePack::cellFill(Vector3r vol){
-- 
2.43.0


From 58729143a377e807351f98514453173111a044fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:01 +0000
Subject: [PATCH 50/88] fix: makeCloud refuses psdCumm which does not go from 0
 to 1

---
 pkg/dem/SpherePack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index fb1999b..312c910 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -120,7 +120,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 		err=(mode>=0); mode=RDIST_PSD;
 		if(psdSizes.size()!=psdCumm.size()) throw invalid_argument(("SpherePack.makeCloud: psdSizes and psdCumm must have same dimensions ("+boost::lexical_cast<string>(psdSizes.size())+"!="+boost::lexical_cast<string>(psdCumm.size())).c_str());
 		if(psdSizes.size()<=1) throw invalid_argument("SpherePack.makeCloud: psdSizes must have at least 2 items");
-		if((*psdCumm.begin())!=0. && (*psdCumm.rbegin())!=1.) throw invalid_argument("SpherePack.makeCloud: first and last items of psdCumm *must* be exactly 0 and 1.");
+		if((*psdCumm.begin())!=0. || (*psdCumm.rbegin())!=1.) throw invalid_argument("SpherePack.makeCloud: first and last items of psdCumm *must* be exactly 0 and 1.");
 		psdRadii.reserve(psdSizes.size());
 		for(size_t i=0; i<psdSizes.size(); i++) {
 			psdRadii.push_back(/* radius, not diameter */ .5*psdSizes[i]);
-- 
2.43.0


From 3a5f96e772807f27a9eeda878f939ed7d7471e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:01 +0000
Subject: [PATCH 51/88] fix: makeCloud computes the volume of spheres when
 checking psdSizes against porosity

---
 pkg/dem/SpherePack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 312c910..0d00de0 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -140,8 +140,9 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 				if (psdCumm2[psdSizes.size()-1]<num) appliedPsdScaling=pow(psdCumm2[psdSizes.size()-1]/num,1./3.);
 			} else {
 				double totVol=0;
-				for(size_t i=1; i<psdSizes.size(); i++) totVol+= 4/3*Mathr::PI*(psdCumm[i]-psdCumm[i-1])*num*
-					pow(0.5*(psdSizes[i]+psdSizes[i-1]),3)*(1+pow(0.5*(psdSizes[i]-psdSizes[i-1]),2));
+				// mean volume for radii uniformly distributed between psdRadii[i-1] and psdRadii[i]: 4/3*pi*rMean³*(1+rRelFuzz²)
+				for(size_t i=1; i<psdSizes.size(); i++) totVol+= 4/3.*Mathr::PI*(psdCumm[i]-psdCumm[i-1])*num*
+					pow(0.5*(psdRadii[i]+psdRadii[i-1]),3)*(1+pow((psdRadii[i]-psdRadii[i-1])/(psdRadii[i]+psdRadii[i-1]),2));
 				Real volumeRatio = totVol/((1-porosity)*(volume?volume:(area*psdSizes[psdSizes.size()-1])));
 				if (volumeRatio>1) appliedPsdScaling=pow(volumeRatio,-1./3.);
 			}
-- 
2.43.0


From a69e6af7282bc7df1c3ea05169952f73b04f18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:01 +0000
Subject: [PATCH 52/88] fix: makeClumpCloud centers clumps, stays within the
 packing and makes it periodic when asked to

---
 pkg/dem/SpherePack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 0d00de0..88ac98e 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -321,7 +321,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	vector<Real> boundRad; // squared radii of bounding sphere for each clump
 	FOREACH(const shared_ptr<SpherePack>& c, _clumps){
 		SpherePack c2(*c); 
-		c2.translate(c2.midPt()); //recenter
+		c2.translate(-c2.midPt()); //recenter
 		clumps.push_back(c2);
 		Real r=0;
 		FOREACH(const Sph& s, c2.pack) r=max(r,s.c.norm()+s.r);
@@ -333,6 +333,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 	}
 	std::list<ClumpInfo> clumpInfos;
 	Vector3r size=mx-mn;
+	isPeriodic=periodic;
 	if(periodic)(cellSize=size);
 	const int maxTry=200;
 	int nGen=0; // number of clumps generated
@@ -409,7 +410,7 @@ long SpherePack::makeClumpCloud(const Vector3r& mn, const Vector3r& mx, const ve
 			#endif
 
 			// add the clump, if no collisions
-			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size(); 
+			/*number clumps consecutively*/ ci.clumpId=nGen; ci.center=pos; ci.rad=rad; ci.minId=pack.size(); ci.maxId=pack.size()+C.pack.size()-1; 
 			FOREACH(const Sph& s, C.pack){
 				pack.push_back(Sph(s.c,s.r,ci.clumpId));
 			}
-- 
2.43.0


From c525ad8cdbf726f4b82504ba55071cda0271afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:01 +0000
Subject: [PATCH 53/88] fix: cellRepeat keeps clumps

---
 pkg/dem/SpherePack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 88ac98e..27bffd1 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -270,14 +270,18 @@ void SpherePack::cellRepeat(Vector3i count){
 	if(cellSize==Vector3r::Zero()){ throw std::runtime_error("cellRepeat cannot be used on non-periodic packing."); }
 	if(count[0]<=0 || count[1]<=0 || count[2]<=0){ throw std::invalid_argument("Repeat count components must be positive."); }
 	size_t origSize=pack.size();
+	int clumpIdStep=0; // to keep clumps of different copies apart
+	for(const auto& s : pack) clumpIdStep=max(clumpIdStep,s.clumpId+1);
+	int copy=0;
 	pack.reserve(origSize*count[0]*count[1]*count[2]);
 	for(int i=0; i<count[0]; i++){
 		for(int j=0; j<count[1]; j++){
 			for(int k=0; k<count[2]; k++){
 				if((i==0) && (j==0) && (k==0)) continue; // original cell
 				Vector3r off(cellSize[0]*i,cellSize[1]*j,cellSize[2]*k);
+				copy++;
 				for(size_t l=0; l<origSize; l++){
-					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r));
+					const Sph& s=pack[l]; pack.push_back(Sph(s.c+off,s.r,s.clumpId<0?-1:s.clumpId+copy*clumpIdStep));
 				}
 			}
 		}
-- 
2.43.0


From 7fe1a9589d1664a6240a710a55edfe117f145f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:33 +0000
Subject: [PATCH 54/88] fix: makeCloud with hSize avoids spheres which lie more
 than one period away

---
 pkg/dem/SpherePack.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/dem/SpherePack.cpp b/pkg/dem/SpherePack.cpp
index 27bffd1..80d2516 100644
--- a/pkg/dem/SpherePack.cpp
+++ b/pkg/dem/SpherePack.cpp
@@ -216,10 +216,7 @@ long SpherePack::makeCloud(Vector3r mn, Vector3r mx, Real rMean, Real rRelFuzz,
 						}
 					} else {//not aligned, find closest neighbor in a cube of size 1, then transform distance to cartesian coordinates
 						Vector3r c1c2=invHsize*(pack[j].c-c);
-						for(int axis=0; axis<3; axis++) {
-							if (std::abs(c1c2[axis])<std::abs(c1c2[axis] - Mathr::Sign(c1c2[axis]))) dr[axis]=c1c2[axis];
-							else dr[axis] = c1c2[axis] - Mathr::Sign(c1c2[axis]);
-						}
+						for(int axis=0; axis<3; axis++) dr[axis]=c1c2[axis]-std::round(c1c2[axis]);
 						dr=hSize*dr;//now in cartesian coordinates
 					}
 					if(pow(pack[j].r+r,2) >= dr.squaredNorm()) {
-- 
2.43.0


From b28fb71d09bb3acf0dd3a1942d8e9a1e0a321720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 55/88] fix: ViscElPM: velocity of the periodic image has the
 right sign

---
 pkg/dem/ViscoelasticPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticPM.cpp b/pkg/dem/ViscoelasticPM.cpp
index 61c8091..d6880a8 100644
--- a/pkg/dem/ViscoelasticPM.cpp
+++ b/pkg/dem/ViscoelasticPM.cpp
@@ -108,7 +108,7 @@ bool computeForceTorqueViscEl(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys
 		const Vector3r c1x = (geom.contactPoint - de1.pos);
 		const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
 		
-		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
 		const Real normalVelocity	= geom.normal.dot(relativeVelocity);
 		const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 		
-- 
2.43.0


From dcb071b37e098d0e98c3e83cd36ccfc172c6a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 56/88] fix: ViscElCapPM: velocity of the periodic image has
 the right sign

---
 pkg/dem/ViscoelasticCapillarPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ViscoelasticCapillarPM.cpp b/pkg/dem/ViscoelasticCapillarPM.cpp
index b474198..8c50c26 100644
--- a/pkg/dem/ViscoelasticCapillarPM.cpp
+++ b/pkg/dem/ViscoelasticCapillarPM.cpp
@@ -148,7 +148,7 @@ bool Law2_ScGeom_ViscElCapPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IP
         const Vector3r c1x = (geom.contactPoint - de1.pos);
         const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
         
-        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
         const auto normalVelocity	= geom.normal.dot(relativeVelocity);
         
         dampCapForceScalar = -phys.dcap * normalVelocity;
-- 
2.43.0


From 327981280355536a734c1c8c6df9bf76135904c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 57/88] fix: LudingPM: velocity of the periodic image has the
 right sign

---
 pkg/dem/LudingPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/LudingPM.cpp b/pkg/dem/LudingPM.cpp
index ecf33fa..e97d6f3 100644
--- a/pkg/dem/LudingPM.cpp
+++ b/pkg/dem/LudingPM.cpp
@@ -183,7 +183,7 @@ bool Law2_ScGeom_LudingPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys
   const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
   
   
-  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
   const Real normalVelocity	= geom.normal.dot(relativeVelocity);
   const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 
-- 
2.43.0


From 179302db7369fca4dfed83048bcc7f61c2d89474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 58/88] fix: CpmPM: torque in periodic scenes acts at the
 contact point

---
 pkg/dem/ConcretePM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/ConcretePM.cpp b/pkg/dem/ConcretePM.cpp
index be4c791..8432738 100644
--- a/pkg/dem/ConcretePM.cpp
+++ b/pkg/dem/ConcretePM.cpp
@@ -445,8 +445,8 @@ bool Law2_ScGeom_CpmPhys_Cpm::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _p
 	} else {
 		scene->forces.addForce(id1,f);
 		scene->forces.addForce(id2,-f);
-		scene->forces.addTorque(id1,(geom->radius1+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
-		scene->forces.addTorque(id2,(geom->radius2+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
+		scene->forces.addTorque(id1,(geom->radius1-.5*geom->penetrationDepth)*geom->normal.cross(f));
+		scene->forces.addTorque(id2,(geom->radius2-.5*geom->penetrationDepth)*geom->normal.cross(f));
 	}
 	TIMING_DELTAS_CHECKPOINT("rest");
 	return true;
-- 
2.43.0


From f2e3e9a8da2394dea4e39fedbf833c4f0af64ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 59/88] fix: shear stiffness is zero, not NaN, when Poisson
 ratios are zero

---
 pkg/dem/FrictPhys.cpp    | 4 ++--
 pkg/dem/FrictViscoPM.cpp | 4 ++--
 pkg/dem/Ip2_ElastMat.cpp | 2 +-
 pkg/dem/Lubrication.cpp  | 2 +-
 pkg/dem/MortarMat.cpp    | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/dem/FrictPhys.cpp b/pkg/dem/FrictPhys.cpp
index 00065c0..4939c9f 100644
--- a/pkg/dem/FrictPhys.cpp
+++ b/pkg/dem/FrictPhys.cpp
@@ -29,7 +29,7 @@ void Ip2_FrictMat_FrictMat_FrictPhys::go( const shared_ptr<Material>& b1
 	//half the harmonic average of the two stiffnesses, when (2*Ri*Ei) is the stiffness of a contact point on sphere "i"
 	Real Kn = 2*Ea*Ra*Eb*Rb/(Ea*Ra+Eb*Rb);
 	//same for shear stiffness
-	Real Ks = 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb);
+	Real Ks = (Va && Vb) ? 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb) : 0;
 
 	Real frictionAngle = (!frictAngle) ? std::min(mat1->frictionAngle,mat2->frictionAngle) : (*frictAngle)(mat1->id,mat2->id,mat1->frictionAngle,mat2->frictionAngle);
 	contactPhysics->tangensOfFrictionAngle = std::tan(frictionAngle);
@@ -60,7 +60,7 @@ void Ip2_FrictMat_FrictMat_ViscoFrictPhys::go( const shared_ptr<Material>& b1
 	//harmonic average of the two stiffnesses when (Ri.Ei/2) is the stiffness of a contact point on sphere "i"
 	Real Kn = 2*Ea*Ra*Eb*Rb/(Ea*Ra+Eb*Rb);
 	//same for shear stiffness
-	Real Ks = 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb);
+	Real Ks = (Va && Vb) ? 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb) : 0;
 
 	Real frictionAngle = (!frictAngle) ? std::min(mat1->frictionAngle,mat2->frictionAngle) : (*frictAngle)(mat1->id,mat2->id,mat1->frictionAngle,mat2->frictionAngle);
 	contactPhysics->tangensOfFrictionAngle = std::tan(frictionAngle);
diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index a0852f7..97f89ec 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -45,7 +45,7 @@ void Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Materia
 	
 	// calculate stiffness from MatchMaker or use harmonic avarage as usual if not given
 	Real Kn = (kn) ? (*kn)(mat1->id,mat2->id) : 2.*Ea*Ra*Eb*Rb/(Ea*Ra+Eb*Rb);
-	Real Ks = (kRatio) ? (*kRatio)(mat1->id,mat2->id)*Kn : 2.*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb);
+	Real Ks = (kRatio) ? (*kRatio)(mat1->id,mat2->id)*Kn : ((Va && Vb) ? 2.*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb) : 0);
 	
 	Real frictionAngle = (!frictAngle) ? std::min(mat1->frictionAngle,mat2->frictionAngle) : (*frictAngle)(mat1->id,mat2->id,mat1->frictionAngle,mat2->frictionAngle);
 	contactPhysics->tangensOfFrictionAngle = std::tan(frictionAngle);
@@ -102,7 +102,7 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 	
 	// calculate stiffness from MatchMaker or use harmonic avarage as usual if not given
 	Real Kn = (kn) ? (*kn)(mat1->id,mat2->id) : 2.*Ea*Ra*Eb*Rb/(Ea*Ra+Eb*Rb);
-	Real Ks = (kRatio) ? (*kRatio)(mat1->id,mat2->id)*Kn : 2.*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb);
+	Real Ks = (kRatio) ? (*kRatio)(mat1->id,mat2->id)*Kn : ((Va && Vb) ? 2.*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb) : 0);
 	
 	Real frictionAngle = (!frictAngle) ? std::min(mat1->frictionAngle,mat2->frictionAngle) : (*frictAngle)(mat1->id,mat2->id,mat1->frictionAngle,mat2->frictionAngle);
 	contactPhysics->tangensOfFrictionAngle = std::tan(frictionAngle);
diff --git a/pkg/dem/Ip2_ElastMat.cpp b/pkg/dem/Ip2_ElastMat.cpp
index 88a446c..0c24477 100644
--- a/pkg/dem/Ip2_ElastMat.cpp
+++ b/pkg/dem/Ip2_ElastMat.cpp
@@ -53,7 +53,7 @@ void Ip2_ElastMat_ElastMat_NormShearPhys::go( const shared_ptr<Material>& b1
 		Rb=geom->refR2>0?geom->refR2:geom->refR1;
 		//harmonic average of the two stiffnesses when (Ri.Ei/2) is the stiffness of a contact point on sphere "i"
 		Kn = 2*Ea*Ra*Eb*Rb/(Ea*Ra+Eb*Rb);
-		Ks = 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb);
+		Ks = (Va && Vb) ? 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb) : 0;
 	} else {
 		Kn = 2*Ea*Eb/(Ea+Eb);
 		Kn = 2*Ea*Va*Eb*Vb/(Ea*Va+Eb*Vb);
diff --git a/pkg/dem/Lubrication.cpp b/pkg/dem/Lubrication.cpp
index 0650b9c..d3d31b0 100644
--- a/pkg/dem/Lubrication.cpp
+++ b/pkg/dem/Lubrication.cpp
@@ -48,7 +48,7 @@ void Ip2_FrictMat_FrictMat_LubricationPhys::go(const shared_ptr<Material> &mater
 	
 	/* Cundall-stack-like contact */
 	Real Kn = 2.*Ea*Da*Eb*Db/(Ea*Da+Eb*Db);
-	Real Ks = 2.*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Vb);
+	Real Ks = (Va && Vb) ? 2.*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Vb) : 0;
     
 	phys->kn = Kn;
 	phys->ks = Ks;
diff --git a/pkg/dem/MortarMat.cpp b/pkg/dem/MortarMat.cpp
index 555ebc4..4593487 100644
--- a/pkg/dem/MortarMat.cpp
+++ b/pkg/dem/MortarMat.cpp
@@ -49,7 +49,7 @@ void Ip2_MortarMat_MortarMat_MortarPhys::go(const shared_ptr<Material>& material
 	const Real& n1 = mat1->poisson;
 	const Real& n2 = mat2->poisson;
 	phys->kn = 2*E1*r1*E2*r2/(E1*r1+E2*r2);
-	phys->ks = 2*E1*r1*n1*E2*r2*n2/(E1*r1*n1+E2*r2*n2);
+	phys->ks = (n1 && n2) ? 2*E1*r1*n1*E2*r2*n2/(E1*r1*n1+E2*r2*n2) : 0;
 }
 
 
-- 
2.43.0


From f7cc4c9e98bed3f4b1906192ac0c459565095dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 60/88] fix: capillary shear stiffness uses both Poisson
 ratios, and is zero when they are

---
 pkg/dem/CapillaryPhys.cpp  | 2 +-
 pkg/dem/CapillaryPhys1.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/CapillaryPhys.cpp b/pkg/dem/CapillaryPhys.cpp
index d7fc77b..53a513b 100644
--- a/pkg/dem/CapillaryPhys.cpp
+++ b/pkg/dem/CapillaryPhys.cpp
@@ -29,7 +29,7 @@ void Ip2_FrictMat_FrictMat_CapillaryPhys::go( const shared_ptr<Material>& b1 //F
 			Real fa 	= sdec1->frictionAngle;
 			Real fb 	= sdec2->frictionAngle;
 			Real Kn = 2*Ea*Da*Eb*Db/(Ea*Da+Eb*Db);//harmonic average of two stiffnesses
-			Real Ks = 2*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Va);//harmonic average of two stiffnesses with ks=V*kn for each sphere
+			Real Ks = (Va && Vb) ? 2*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Vb) : 0;//harmonic average of two stiffnesses with ks=V*kn for each sphere
 
 			contactPhysics->tangensOfFrictionAngle = std::tan(std::min(fa,fb));
 			contactPhysics->kn = Kn;
diff --git a/pkg/dem/CapillaryPhys1.cpp b/pkg/dem/CapillaryPhys1.cpp
index 508fa6b..49797bf 100644
--- a/pkg/dem/CapillaryPhys1.cpp
+++ b/pkg/dem/CapillaryPhys1.cpp
@@ -44,7 +44,7 @@ void Ip2_FrictMat_FrictMat_CapillaryPhys1::go( const shared_ptr<Material>& b1 //
 			Real fa 	= sdec1->frictionAngle;
 			Real fb 	= sdec2->frictionAngle;
 			Real Kn = 2*Ea*Da*Eb*Db/(Ea*Da+Eb*Db);//harmonic average of two stiffnesses
-			Real Ks = 2*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Va);//harmonic average of two stiffnesses with ks=V*kn for each sphere
+			Real Ks = (Va && Vb) ? 2*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Vb) : 0;//harmonic average of two stiffnesses with ks=V*kn for each sphere
 
 			contactPhysics->tangensOfFrictionAngle = std::tan(std::min(fa,fb));
 			contactPhysics->kn = Kn;
-- 
2.43.0


From 78cb1d7dfbec792b7087a21b5f1495c8b4b10231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 61/88] fix: Ip2_ElastMat_ElastMat_NormShearPhys: shear
 stiffness of contacts without radii

---
 pkg/dem/Ip2_ElastMat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ip2_ElastMat.cpp b/pkg/dem/Ip2_ElastMat.cpp
index 0c24477..9344c78 100644
--- a/pkg/dem/Ip2_ElastMat.cpp
+++ b/pkg/dem/Ip2_ElastMat.cpp
@@ -56,7 +56,7 @@ void Ip2_ElastMat_ElastMat_NormShearPhys::go( const shared_ptr<Material>& b1
 		Ks = (Va && Vb) ? 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb) : 0;
 	} else {
 		Kn = 2*Ea*Eb/(Ea+Eb);
-		Kn = 2*Ea*Va*Eb*Vb/(Ea*Va+Eb*Vb);
+		Ks = (Va && Vb) ? 2*Ea*Va*Eb*Vb/(Ea*Va+Eb*Vb) : 0;
 	}
 	phys->kn = Kn;
 	phys->ks = Ks;
-- 
2.43.0


From ebf33aed2a92628f984d90add26229ac6c3895dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 62/88] fix: Ip2_FrictMat_FrictViscoMat_FrictViscoPhys accepts
 the materials in either order

---
 pkg/dem/FrictViscoPM.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index 97f89ec..cfe4954 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -86,7 +86,10 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 
 	if(interaction->phys) return;
 	const shared_ptr<FrictMat>& mat1 = YADE_PTR_CAST<FrictMat>(b1);
-	const shared_ptr<FrictViscoMat>& mat2 = YADE_PTR_CAST<FrictViscoMat>(b2);
+	const shared_ptr<FrictMat>& mat2 = YADE_PTR_CAST<FrictMat>(b2);
+	// the functor is also called with its arguments in the reverse order
+	const FrictViscoMat* viscoMat = dynamic_cast<FrictViscoMat*>(b2.get());
+	if(!viscoMat) viscoMat = YADE_CAST<FrictViscoMat*>(b1.get());
 	interaction->phys = shared_ptr<FrictViscoPhys>(new FrictViscoPhys());
 	const shared_ptr<FrictViscoPhys>& contactPhysics = YADE_PTR_CAST<FrictViscoPhys>(interaction->phys);
 	Real Ea 	= mat1->young;
@@ -112,7 +115,7 @@ void Ip2_FrictMat_FrictViscoMat_FrictViscoPhys::go(const shared_ptr<Material>& b
 	/************************/
 	/* DAMPING COEFFICIENTS */
 	/************************/
-	Real betanb = mat2->betan;
+	Real betanb = viscoMat->betan;
 	
 	// inclusion of local viscous damping
 	if (betanb!=0){
-- 
2.43.0


From 1b856aac53fb8c9a583e81fee4d506cdb71ec8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 63/88] fix: TorqueRecorder: moment of the forces has the right
 sign

---
 pkg/dem/ForceTorqueRecorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/ForceTorqueRecorder.cpp b/pkg/dem/ForceTorqueRecorder.cpp
index 30e460a..879ecba 100644
--- a/pkg/dem/ForceTorqueRecorder.cpp
+++ b/pkg/dem/ForceTorqueRecorder.cpp
@@ -25,7 +25,7 @@ void TorqueRecorder::action(){
 		Body* b=Body::byId(id,scene).get();
 		
 		Vector3r tmpPos = b->state->pos;
-		Vector3r radiusVector = tmpAxis.cross(tmpAxis.cross(tmpPos - zeroPoint));
+		Vector3r radiusVector = -tmpAxis.cross(tmpAxis.cross(tmpPos - zeroPoint));
 		
 		totalTorque+=tmpAxis.dot(scene->forces.getTorque(id)+radiusVector.cross(scene->forces.getForce(id)));
 	};
-- 
2.43.0


From 69345f2dcbab4159454eb3b8bf074778c05de7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 64/88] fix: CentralGravityEngine skips erased bodies

---
 pkg/common/GravityEngines.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/common/GravityEngines.cpp b/pkg/common/GravityEngines.cpp
index 5a7738f..e7564d1 100644
--- a/pkg/common/GravityEngines.cpp
+++ b/pkg/common/GravityEngines.cpp
@@ -30,9 +30,10 @@ void GravityEngine::action(){
 }
 
 void CentralGravityEngine::action(){
+	if(!scene->bodies->exists(centralBody)) throw std::runtime_error("CentralGravityEngine: centralBody #"+boost::lexical_cast<string>(centralBody)+" does not exist.");
 	const Vector3r& centralPos=Body::byId(centralBody)->state->pos;
 	FOREACH(const shared_ptr<Body>& b, *scene->bodies){
-		if(b->isClump() || b->getId()==centralBody) continue; // skip clumps and central body
+		if(!b || b->isClump() || b->getId()==centralBody) continue; // skip clumps and central body
 		if(mask!=0 && !b->maskCompatible(mask)) continue;
 		Real F=accel*b->state->mass;
 		Vector3r toCenter=centralPos-b->state->pos; toCenter.normalize();
-- 
2.43.0


From aef87d677047d5682f3c6b06a44296e52b3282e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 65/88] fix: StepDisplacer skips erased bodies

---
 pkg/common/StepDisplacer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/StepDisplacer.hpp b/pkg/common/StepDisplacer.hpp
index 498f0f8..5d11b3f 100644
--- a/pkg/common/StepDisplacer.hpp
+++ b/pkg/common/StepDisplacer.hpp
@@ -9,6 +9,7 @@ class StepDisplacer: public PartialEngine {
 		virtual void action() {
 			FOREACH(Body::id_t id, ids){
 			const shared_ptr<Body>& b=Body::byId(id,scene);
+			if(!b) continue;
 			if(setVelocities){
 				const Real& dt=scene->dt;
 				b->state->vel=mov/dt;
-- 
2.43.0


From d3ec60484a43f8e25229a209ba8da8ebfdce79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 66/88] fix: ServoPIDController takes the component of the
 force along its axis

---
 pkg/common/KinematicEngines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/KinematicEngines.cpp b/pkg/common/KinematicEngines.cpp
index e9ceb00..1ae378d 100644
--- a/pkg/common/KinematicEngines.cpp
+++ b/pkg/common/KinematicEngines.cpp
@@ -158,7 +158,7 @@ void ServoPIDController::apply(const vector<Body::id_t>& ids){
     }
     
     axis.normalize();
-    tmpForce = tmpForce.cwiseProduct(axis);   // Take into account given axis
+    tmpForce = tmpForce.dot(axis)*axis;   // Take into account given axis
     errorCur = tmpForce.norm() - target;      // Find error
     
     const Real pTerm = errorCur*kP;               // Calculate proportional term
-- 
2.43.0


From 7e681d7c51b1c88475ed5cc2f6375e6652e81b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:30 +0000
Subject: [PATCH 67/88] fix: dict() and pickling keep attributes which a
 derived class declares again

---
 lib/serialization/Serializable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/serialization/Serializable.hpp b/lib/serialization/Serializable.hpp
index 7fec98a..130f0a5 100644
--- a/lib/serialization/Serializable.hpp
+++ b/lib/serialization/Serializable.hpp
@@ -161,7 +161,7 @@ if(key==BOOST_PP_STRINGIZE(_DEPREC_OLDNAME(z))){ \
 #define _REGISTER_ATTRIBUTES_DEPREC(thisClass,baseClass,attrs,deprec)  _REGISTER_BOOST_ATTRIBUTES(baseClass,attrs) public: \
 	void pySetAttr(const std::string& key, const boost::python::object& value){BOOST_PP_SEQ_FOR_EACH(_PYSET_ATTR,~,attrs); BOOST_PP_SEQ_FOR_EACH(_PYSET_ATTR_DEPREC,thisClass,deprec); baseClass::pySetAttr(key,value); } \
 	/* list all attributes (except deprecated ones); could return boost::python::set instead*/ /* boost::python::list pyKeys() const {  boost::python::list ret; BOOST_PP_SEQ_FOR_EACH(_PYKEYS_ATTR,~,attrs); ret.extend(baseClass::pyKeys()); return ret; }  */ \
-	/* return dictionary of all acttributes and values; deprecated attributes omitted */ boost::python::dict pyDict() const { boost::python::dict ret; BOOST_PP_SEQ_FOR_EACH(_PYDICT_ATTR,~,attrs); ret.update(baseClass::pyDict()); return ret; } \
+	/* return dictionary of all acttributes and values; deprecated attributes omitted */ boost::python::dict pyDict() const { boost::python::dict ret; ret.update(baseClass::pyDict()); BOOST_PP_SEQ_FOR_EACH(_PYDICT_ATTR,~,attrs); return ret; } \
 	virtual void callPostLoad(void){ baseClass::callPostLoad(); postLoad(*this); }
 
 
-- 
2.43.0


From c84ee92a3807aa5dbcd495fef062dcb2833c4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:30 +0000
Subject: [PATCH 68/88] fix: OpenMPAccumulator can be copied and assigned

---
 lib/base/openmp-accu.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 91965ba..b8f41ef 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -87,6 +87,9 @@ class OpenMPAccumulator{
 		if(succ!=0) throw std::runtime_error("OpenMPAccumulator: posix_memalign failed to allocate memory.");
 		reset();
 	}
+	// copies own their storage
+	OpenMPAccumulator(const OpenMPAccumulator& b): OpenMPAccumulator() { set(b.get()); }
+	OpenMPAccumulator& operator=(const OpenMPAccumulator& b){ if(this!=&b) set(b.get()); return *this; }
 	~OpenMPAccumulator() { free((void*)data); }
 	// lock-free addition
 	void operator+=(const T& val){ *((T*)(data+omp_get_thread_num()*eSize))+=val; }
-- 
2.43.0


From 3f2bd41ba497be2e49511e56b267dd88cd73102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:30 +0000
Subject: [PATCH 69/88] fix: OpenMPArrayAccumulator::resize reads no more than
 the old storage

---
 lib/base/openmp-accu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index b8f41ef..db5a346 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -35,8 +35,8 @@ class OpenMPArrayAccumulator{
 						memcpy(/*dest*/(void*)chunks[th],/*src*/oldChunk,nCL*CLS); // preserve old data
 						free(oldChunk); // deallocate old storage
 					}
-					nCL=nCL_new;
 				}
+				nCL=nCL_new;
 			}
 			// if nCL_new<nCL, do not deallocate memory
 			// if nCL_new==nCL, only update sz
-- 
2.43.0


From 776d85920a04371182887128c6f81bb6f6235f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 70/88] fix: liggghts export computes the upper z bound from
 all spheres

---
 py/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/export.py b/py/export.py
index 7b6f994..8ad43f7 100644
--- a/py/export.py
+++ b/py/export.py
@@ -78,7 +78,7 @@ def textExt(filename, format='x_y_z_r', comment='',mask=-1,attrs=[]):
 					maxCoord = b.state.pos + Vector3(b.shape.radius,b.shape.radius,b.shape.radius)
 				else:
 					minCoord = Vector3(min(minCoord[0], b.state.pos[0]-b.shape.radius),min(minCoord[1], b.state.pos[1]-b.shape.radius),min(minCoord[2], b.state.pos[2]-b.shape.radius))
-					maxCoord = Vector3(max(maxCoord[0], b.state.pos[0]+b.shape.radius),max(maxCoord[1], b.state.pos[1]+b.shape.radius),max(minCoord[2], b.state.pos[2]+b.shape.radius))
+					maxCoord = Vector3(max(maxCoord[0], b.state.pos[0]+b.shape.radius),max(maxCoord[1], b.state.pos[1]+b.shape.radius),max(maxCoord[2], b.state.pos[2]+b.shape.radius))
 				if b.mask not in maskNumber:
 					maskNumber.append(b.mask)
 		except AttributeError:
-- 
2.43.0


From 1d95265638de8a5e2927689542cbfbb208ea5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 71/88] fix: textExt and textPolyhedra write Matrix3 attributes
 instead of raising TypeError

---
 py/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/export.py b/py/export.py
index 8ad43f7..c1c5258 100644
--- a/py/export.py
+++ b/py/export.py
@@ -61,7 +61,7 @@ def textExt(filename, format='x_y_z_r', comment='',mask=-1,attrs=[]):
 						elif isinstance(v,Vector3):
 							output+='\t%g\t%g\t%g'%tuple(v[i] for i in xrange(3))
 						elif isinstance(v,Matrix3):
-							output+='\t%g'%tuple(v[i] for i in xrange(9))
+							output+=('\t%g'*9)%tuple(v[i,j] for i in xrange(3) for j in xrange(3))
 					output += '\n'
 				elif (format=='id_x_y_z_r_matId'):
 					output+=('%d\t%g\t%g\t%g\t%g\t%d\n'%(b.id,b.state.pos[0],b.state.pos[1],b.state.pos[2],b.shape.radius,b.material.id))
@@ -208,7 +208,7 @@ def textPolyhedra(fileName, comment='',mask=-1, explanationComment=True,attrs=[]
 				elif isinstance(v,Vector3):
 					strAttrs+=' %g %g %g'%tuple(v[i] for i in xrange(3))
 				elif isinstance(v,Matrix3):
-					strAttrs+=' %g'%tuple(v[i] for i in xrange(9))
+					strAttrs+=(' %g'*9)%tuple(v[i,j] for i in xrange(3) for j in xrange(3))
 		f.write('%d %d %d%s\n'%(b.id,len(vertices),len(surfaces),strAttrs))
 		f.writelines('%.8e %.8e %.8e\n'%(v[0],v[1],v[2]) for v in vertices)
 		f.writelines(' '.join(str(i) for i in surface)+'\n' for surface in surfaces)
-- 
2.43.0


From afa0270c0c4785f35742e8de0fa5bdb1b075fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 72/88] fix: textExt writes every line of an attrs comment as a
 comment line

---
 py/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/export.py b/py/export.py
index c1c5258..4848f2e 100644
--- a/py/export.py
+++ b/py/export.py
@@ -36,7 +36,7 @@ def textExt(filename, format='x_y_z_r', comment='',mask=-1,attrs=[]):
 			if format=='x_y_z_r_attrs':
 				cmts = comment.split('\n')
 				for cmt in cmts[:-1]:
-					output += cmt
+					output += '# ' + cmt + '\n'
 				output += '# x y z r ' + cmts[-1] + '\n'
 			else:
 				output += '# ' + comment + '\n'
-- 
2.43.0


From 0faedaa3cce7785cfaec7a6fafa53ba0c28d116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 73/88] fix: text2vtk and text2vtkSection keep the first sphere
 of the file

---
 py/export.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/export.py b/py/export.py
index 4848f2e..21f8bd7 100644
--- a/py/export.py
+++ b/py/export.py
@@ -1021,7 +1021,8 @@ def text2vtk(inFileName,outFileName):
 		lastLine = line
 		line = fin.readline()
 	columns = lastLine.split()[5:]
-	data = [line.split() for line in fin]
+	data = [line.split()] if line else []
+	data.extend(line.split() for line in fin)
 	fin.close()
 	n = len(data)
 	fout.write('# vtk DataFile Version 3.0.\ncomment\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n'%(n))
@@ -1071,7 +1072,8 @@ def text2vtkSection(inFileName,outFileName,point,normal=(1,0,0)):
 		lastLine = line
 		line = fin.readline()
 	columns = lastLine.split()[4:]
-	data = [[float(w) for w in line.split()] for line in fin]
+	data = [[float(w) for w in line.split()]] if line else []
+	data.extend([float(w) for w in line.split()] for line in fin)
 	fin.close()
 	#
 	d = computeD(point,normal)
-- 
2.43.0


From 0364c515a8a18f6c17ed98b34accfaff93f42efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 74/88] fix: exportFacets writes tensor quantities instead of
 failing on them

---
 py/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/export.py b/py/export.py
index 21f8bd7..74754ac 100644
--- a/py/export.py
+++ b/py/export.py
@@ -495,7 +495,7 @@ class VTKExporter:
 				for b in bodies:
 					t = eval(command)
 					outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t[0,0],t[0,1],t[0,2],t[1,0],t[1,1],t[1,2],t[2,0],t[2,1],t[2,2]))
-			if isinstance(test,Vector3):
+			elif isinstance(test,Vector3):
 				outFile.write("\nVECTORS %s double\n"%(name))
 				for b in bodies:
 					v = eval(command)
@@ -565,7 +565,7 @@ class VTKExporter:
 				for b in bodies:
 					t = eval(command)
 					outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t[0,0],t[0,1],t[0,2],t[1,0],t[1,1],t[1,2],t[2,0],t[2,1],t[2,2]))
-			if isinstance(test,Vector3):
+			elif isinstance(test,Vector3):
 				outFile.write("\nVECTORS %s double\n"%(name))
 				for b in bodies:
 					v = eval(command)
-- 
2.43.0


From 902ce5369c50105580747d17fb20cd600cc9e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 75/88] fix: exportFacetsAsMesh looks bodies up by their id

---
 py/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/export.py b/py/export.py
index 74754ac..203e1ce 100644
--- a/py/export.py
+++ b/py/export.py
@@ -532,7 +532,7 @@ class VTKExporter:
 		# nodes
 		nodes = [Vector3.Zero for i in xrange(max(max(e) for e in connectivityTable)+1)]
 		for id,e in zip(ids,connectivityTable):
-			b = bodies[id]
+			b = O.bodies[id]
 			p = b.state.pos
 			o = b.state.ori
 			s = b.shape
-- 
2.43.0


From b4bbf60668f24bb436c4945f0cd2389ac523cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 76/88] fix: exportInteractions writes one-command vertex
 tensors instead of failing

---
 py/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/export.py b/py/export.py
index 203e1ce..7500734 100644
--- a/py/export.py
+++ b/py/export.py
@@ -661,7 +661,7 @@ class VTKExporter:
 						t1 = eval(command1)
 						t2 = eval(command2)
 						outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t1[0,0],t1[0,1],t1[0,2],t1[1,0],t1[1,1],t1[1,2],t1[2,0],t1[2,1],t1[2,2]))
-					outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t2[0,0],t2[0,1],t2[0,2],t2[1,0],t2[1,1],t2[1,2],t2[2,0],t2[2,1],t2[2,2]))
+						outFile.write("%g %g %g\n%g %g %g\n%g %g %g\n\n"%(t2[0,0],t2[0,1],t2[0,2],t2[1,0],t2[1,1],t2[1,2],t2[2,0],t2[2,1],t2[2,2]))
 			elif isinstance(test,Vector3):
 				outFile.write("\nVECTORS %s double\n"%(name))
 				for ii,jj in intrs:
-- 
2.43.0


From 44240c5834263886c5b2da87e64b2daf1b87b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:41 +0000
Subject: [PATCH 77/88] fix: VTKExporter honours numLabel=0

---
 py/export.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/py/export.py b/py/export.py
index 7500734..d15a379 100644
--- a/py/export.py
+++ b/py/export.py
@@ -414,7 +414,7 @@ class VTKExporter:
 		if not bodies: return
 		nBodies = len(bodies)
 		# output file
-		fName = self.baseName+'-spheres-%08d'%(numLabel if numLabel else self.spheresSnapCount)+'.vtk'
+		fName = self.baseName+'-spheres-%08d'%(numLabel if numLabel is not None else self.spheresSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,nBodies))
@@ -463,7 +463,7 @@ class VTKExporter:
 		if not bodies: return
 		nBodies = len(bodies)
 		# output file
-		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel else self.facetsSnapCount)+'.vtk'
+		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel is not None else self.facetsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,3*nBodies))
@@ -543,7 +543,7 @@ class VTKExporter:
 			nodes[e[1]] = pt2
 			nodes[e[2]] = pt3
 		# output file
-		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel else self.facetsSnapCount)+'.vtk'
+		fName = self.baseName+'-facets-%08d'%(numLabel if numLabel is not None else self.facetsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,len(nodes)))
@@ -592,7 +592,7 @@ class VTKExporter:
 			return
 		nIntrs = len(intrs)
 		# output file
-		fName = self.baseName+'-intrs-%08d'%(numLabel if numLabel else self.intrsSnapCount)+'.vtk'
+		fName = self.baseName+'-intrs-%08d'%(numLabel if numLabel is not None else self.intrsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,2*nIntrs))
@@ -713,7 +713,7 @@ class VTKExporter:
 			return
 		nIntrs = len(intrs)
 		# output file
-		fName = self.baseName+'-cps-%08d'%(numLabel if numLabel else self.contactPointsSnapCount)+'.vtk'
+		fName = self.baseName+'-cps-%08d'%(numLabel if numLabel is not None else self.contactPointsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,nIntrs))
@@ -774,7 +774,7 @@ class VTKExporter:
 			self._warn("exportPeriodicCell: scene is not periodic, no export...")
 			return
 		hSize = O.cell.hSize
-		fName = self.baseName+'-periCell-%08d'%(numLabel if numLabel else self.intrsSnapCount)+'.vtk'
+		fName = self.baseName+'-periCell-%08d'%(numLabel if numLabel is not None else self.intrsSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET UNSTRUCTURED_GRID\nPOINTS 8 double\n"%(comment))
 		vertices = [
@@ -820,7 +820,7 @@ class VTKExporter:
 			bodyFaces.append(ff)
 		# output file
 		nFaces = sum(len(f) for f in bodyFaces)
-		fName = self.baseName+'-polyhedra-%08d'%(numLabel if numLabel else self.polyhedraSnapCount)+'.vtk'
+		fName = self.baseName+'-polyhedra-%08d'%(numLabel if numLabel is not None else self.polyhedraSnapCount)+'.vtk'
 		outFile = open(fName, 'w')
 		# head
 		outFile.write("# vtk DataFile Version 3.0.\n%s\nASCII\n\nDATASET POLYDATA\nPOINTS %d double\n"%(comment,nVertices))
-- 
2.43.0


From 8d271f3d1571fb65b04b2ed0365a22e4723b5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:41 +0000
Subject: [PATCH 78/88] fix: VTKRecorder writes the interactions which cross
 the periodic boundary

---
 pkg/dem/VTKRecorder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/VTKRecorder.cpp b/pkg/dem/VTKRecorder.cpp
index 488aeb8..e4f4b67 100644
--- a/pkg/dem/VTKRecorder.cpp
+++ b/pkg/dem/VTKRecorder.cpp
@@ -481,7 +481,7 @@ void VTKRecorder::action(){
 			// how many times to add values defined on interactions, depending on how many times the interaction is saved
 			int numAddValues=1;
 			// aperiodic boundary, or interaction is inside the cell
-			if(!scene->isPeriodic || (scene->isPeriodic && (I->cellDist==wrapCellDist[I->getId2()]-wrapCellDist[I->getId1()]))){
+			if(!scene->isPeriodic || (scene->isPeriodic && (I->cellDist==wrapCellDist[I->getId1()]-wrapCellDist[I->getId2()]))){
 				vtkSmartPointer<vtkLine> line = vtkSmartPointer<vtkLine>::New();
 				line->GetPointIds()->SetId(0,setId1Line);
 				line->GetPointIds()->SetId(1,setId2Line);
@@ -493,19 +493,21 @@ void VTKRecorder::action(){
 				// create two line objects; each of them has one endpoint inside the cell and the other one sticks outside
 				// A,B are the "fake" bodies outside the cell for id1 and id2 respectively, p1,p2 are the displayed points
 				// distance in cell units for shifting A away from p1; negated value is shift of B away from p2
-				Vector3r ptA(p01+scene->cell->hSize*(wrapCellDist[I->getId2()]-I->cellDist).cast<Real>());
+				Vector3r ptA(p01-scene->cell->hSize*(wrapCellDist[I->getId2()]+I->cellDist).cast<Real>());
 				const vtkIdType idPtA=intrBodyPos->InsertNextPoint(ptA[0],ptA[1],ptA[2]); 
 				
-				Vector3r ptB(p02+scene->cell->hSize*(wrapCellDist[I->getId1()]-I->cellDist).cast<Real>());
+				Vector3r ptB(p02-scene->cell->hSize*(wrapCellDist[I->getId1()]-I->cellDist).cast<Real>());
 				const vtkIdType idPtB=intrBodyPos->InsertNextPoint(ptB[0],ptB[1],ptB[2]);
 				
 				vtkSmartPointer<vtkLine> line1B(vtkSmartPointer<vtkLine>::New());
-				line1B->GetPointIds()->SetId(0,setId2Line);
+				line1B->GetPointIds()->SetId(0,setId1Line);
 				line1B->GetPointIds()->SetId(1,idPtB);
+				intrCells->InsertNextCell(line1B);
 				
 				vtkSmartPointer<vtkLine> lineA2(vtkSmartPointer<vtkLine>::New());
 				lineA2->GetPointIds()->SetId(0,idPtA);
 				lineA2->GetPointIds()->SetId(1,setId2Line);
+				intrCells->InsertNextCell(lineA2);
 				numAddValues=2;
 			}
 			const NormShearPhys* phys = YADE_CAST<NormShearPhys*>(I->phys.get());
-- 
2.43.0


From 7ba26c832b106817020b953f4893737207930784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:04 +0000
Subject: [PATCH 79/88] fix: STL import recognizes binary files by their size

---
 pkg/dem/STLImporter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/STLImporter.hpp b/pkg/dem/STLImporter.hpp
index 697645b..b0d4f3d 100644
--- a/pkg/dem/STLImporter.hpp
+++ b/pkg/dem/STLImporter.hpp
@@ -86,7 +86,7 @@ bool STLReader::open(const char* filename, OutV vertices, OutE edges, OutF facet
   /* Check for binary or ASCII file */
   fseek(fp, STL_LABEL_SIZE, SEEK_SET);
   size_t res=fread(&facenum, sizeof(int), 1, fp);
-  int expected_file_size=STL_LABEL_SIZE + 4 + (sizeof(short)+4*sizeof(float) )*facenum ;
+  int expected_file_size=STL_LABEL_SIZE + 4 + (sizeof(short)+12*sizeof(float) )*facenum ;
   if(file_size ==  expected_file_size) binary = true;
   unsigned char tmpbuf[128];
   res=fread(tmpbuf,sizeof(tmpbuf),1,fp);
-- 
2.43.0


From e237c6d1f37f1c51413cfbb61150c65c5c91ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 80/88] fix: exportInteractions does not need body 0 to exist

---
 py/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/export.py b/py/export.py
index d15a379..809ac4b 100644
--- a/py/export.py
+++ b/py/export.py
@@ -637,7 +637,7 @@ class VTKExporter:
 		# write additional data of bodies
 		if verticesWhat:
 			outFile.write("\nPOINT_DATA %d\n"%(2*nIntrs))
-			b = b1 = b2 = O.bodies[0]
+			b = b1 = b2 = O.bodies[intrs[0][0]]
 		# see exportSpheres for explanation of this code block
 		for vWhat in verticesWhat:
 			lw = len(vWhat)
-- 
2.43.0


From e9791e665a8e5a8f42c18f80f463417101f1a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:57 +0000
Subject: [PATCH 81/88] fix: GlExtra_OctreeCubes does not loop forever on a
 file which cannot be read

---
 pkg/dem/DomainLimiter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/DomainLimiter.cpp b/pkg/dem/DomainLimiter.cpp
index fcd3df2..d57c37f 100644
--- a/pkg/dem/DomainLimiter.cpp
+++ b/pkg/dem/DomainLimiter.cpp
@@ -309,7 +309,7 @@ void GlExtra_OctreeCubes::postLoad(GlExtra_OctreeCubes&){
 	if(boxesFile.empty()) return;
 	boxes.clear();
 	ifstream txt(boxesFile.c_str());
-	while(!txt.eof()){
+	while(txt.good()){
 		Real data[8];
 		for(int i=0; i<8; i++){ if(i<7 && txt.eof()) goto done; txt>>data[i]; }
 		OctreeBox ob; Vector3r mn(data[0],data[1],data[2]), mx(data[3],data[4],data[5]);
-- 
2.43.0


From 193a5ff7cd9c9ce4f73e569d7b66302178ff4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 82/88] fix: a clump with a single aspherical member is flagged
 aspherical

---
 core/Clump.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 89bb640..8a47bb4 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -107,6 +107,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 		state->mass=subState->mass;
 		state->vel=Vector3r::Zero();
 		state->angVel=Vector3r::Zero();
+		clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 		return;
 	}
 	//check for intersections:
-- 
2.43.0


From 8eae86ba2d38b1934a5815290c9f4d42cd59dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 83/88] fix: GlobalStiffnessTimeStepper handles non-positive
 maxDt and bodies without contacts

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 6f71cda..57dbbd3 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -39,7 +39,7 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 			}
 		}
 	}
-	Real dt; 
+	Real dt=Mathr::MAX_REAL; // no limit, unless found below
 	if(!sdec || stiffness==Vector3r::Zero()){
 		// No interaction on this body, return. If using density scaline fallback to PWaveTimestep-like equation for dt.
 		if (densityScaling) {
@@ -47,8 +47,10 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 				shared_ptr<ElastMat> ebp=YADE_PTR_DYN_CAST<ElastMat>(body->material);
 				shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(body->shape);
 				if(!ebp || !s) dt=defaultDt;
-				Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
-				dt=s->radius/sqrt(ebp->young/density);
+				else {
+					Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
+					dt=s->radius/sqrt(ebp->young/density);
+				}
 // 				dt=defaultDt;
 			} else {
 				dt=defaultDt;
@@ -135,7 +137,7 @@ void GlobalStiffnessTimeStepper::computeTimeStep(Scene* ncb)
 	}
 	if(densityScaling) (newDt=targetDt);
 	if(computedSomething || densityScaling){
-		previousDt = min ( min(newDt , maxDt), 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
+		previousDt = min ( maxDt>0 ? min(newDt , maxDt) : newDt, 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
 		scene->dt=previousDt;
 		computedOnce = true;}
 	else if (!computedOnce) scene->dt=defaultDt;
-- 
2.43.0


From 0bfa475c79f4d2725a071336c7316d4ed1c3e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 84/88] fix: InsertionSortCollider rebuilds its bounds after
 O.bodies.clear()

---
 pkg/common/InsertionSortCollider.cpp               | 2 +-
 pkg/dem/GeneralIntegratorInsertionSortCollider.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..d2608e6 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -213,7 +213,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
diff --git a/pkg/dem/GeneralIntegratorInsertionSortCollider.cpp b/pkg/dem/GeneralIntegratorInsertionSortCollider.cpp
index 2376e85..0f9a771 100644
--- a/pkg/dem/GeneralIntegratorInsertionSortCollider.cpp
+++ b/pkg/dem/GeneralIntegratorInsertionSortCollider.cpp
@@ -56,7 +56,7 @@ void GeneralIntegratorInsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
-- 
2.43.0


From 59fdf60644b6d691473057e28a69a097926b6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 85/88] fix: FrictViscoPM neverErase contacts of separated
 particles exert no viscous force

---
 pkg/dem/FrictViscoPM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index cfe4954..82bee55 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -168,7 +168,9 @@ bool Law2_ScGeom_FrictViscoPhys_CundallStrackVisco::go(shared_ptr<IGeom>& ig, sh
 	if(geom->penetrationDepth <0){
 		if (neverErase) {
 			phys->shearForce = Vector3r::Zero();
-			phys->normalForce = Vector3r::Zero();}
+			phys->normalForce = Vector3r::Zero();
+			phys->normalViscous = Vector3r::Zero();
+			return true;} // not touching, there is nothing to damp
 		else return false;
 	}
 	Real& un=geom->penetrationDepth;
-- 
2.43.0


From d0af8ad7ff58e174d54228d1a4162a43484751ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 86/88] fix: TableParamReader kept the ! of column names with
 descriptions, cut the last line without newline and took = on the first line
 from the last one

---
 py/utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/py/utils.py b/py/utils.py
index 414fa0c..2b00940 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -706,15 +706,14 @@ This class is used by :yref:`yade.utils.readParamsFromTable`.
 		"Setup the reader class, read data into memory."
 		import re
 		# read file in memory, remove newlines and comments; the [''] makes lines 1-indexed
-		ll=[re.sub('\s*#.*','',l[:-1]) for l in ['']+open(file,'r').readlines()]
+		ll=[re.sub('\s*#.*','',l.rstrip('\r\n')) for l in ['']+open(file,'r').readlines()]
 		# usable lines are those that contain something else than just spaces
 		usableLines=[i for i in range(len(ll)) if not re.match(r'^\s*(#.*)?$',ll[i])]
 		headings=ll[usableLines[0]].split()
 		# use all values of which heading has ! after its name to build up the description string
 		# if there are none, use all columns
-		if not 'description' in headings:
-			bangHeads=[h[:-1] for h in headings if h[-1]=='!'] or headings
-			headings=[(h[:-1] if h[-1]=='!' else h) for h in headings]
+		bangHeads=[h[:-1] for h in headings if h[-1]=='!'] or headings
+		headings=[(h[:-1] if h[-1]=='!' else h) for h in headings]
 		usableLines=usableLines[1:] # and remove headinds from usableLines
 		values={}
 		for l in usableLines:
@@ -727,10 +726,8 @@ This class is used by :yref:`yade.utils.readParamsFromTable`.
 		for i,l in enumerate(lines):
 			for j in values[l].keys():
 				if values[l][j]=='=':
-					try:
-						values[l][j]=values[lines[i-1]][j]
-					except IndexError,KeyError:
-						raise RuntimeError("The = specifier on line %d refers to nonexistent value on previous line?"%l)
+					if i==0: raise RuntimeError("The = specifier on line %d refers to nonexistent value on previous line?"%l)
+					values[l][j]=values[lines[i-1]][j]
 		#import pprint; pprint.pprint(headings); pprint.pprint(values)
 		# add descriptions, but if they repeat, append line number as well
 		if not 'description' in headings:
-- 
2.43.0


From 6edc75d1283bc4f7ace5b709991997af318e34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 87/88] fix: plot.reset left image data and labels,
 plot.addData modified the dictionary it was given

---
 py/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/plot.py b/py/plot.py
index acd3b70..5050c21 100644
--- a/py/plot.py
+++ b/py/plot.py
@@ -84,8 +84,8 @@ componentSuffixes={Vector2:{0:'x',1:'y'},Vector3:{0:'x',1:'y',2:'z'},Matrix3:{(0
 
 def reset():
 	"Reset all plot-related variables (data, plots, labels)"
-	global data, plots, labels # plotLines
-	data={}; plots={}; imgData={} # plotLines={};
+	global data, imgData, plots, labels # plotLines
+	data={}; plots={}; imgData={}; labels={} # plotLines={};
 	pylab.close('all')
 
 def resetData():
@@ -243,7 +243,7 @@ def addData(*d_in,**kw):
 	else: numSamples=0
 	# align with imgData, if there is more of them than data
 	if len(imgData)>0 and numSamples==0: numSamples=max(numSamples,len(imgData[imgData.keys()[0]]))
-	d=(d_in[0] if len(d_in)>0 else {})
+	d=dict(d_in[0] if len(d_in)>0 else {}) # copy, since it is modified below
 	d.update(**kw)
 	# handle types composed of multiple values (vectors, matrices)
 	dNames=d.keys()[:] # make copy, since dict cannot change size if iterated over directly
-- 
2.43.0


From a4dd913b1c71c8d92cffda867c64d293e2facc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 88/88] fix: UniaxialStrainer ignored initAccelTime and
 limitStrain and jumped to a negative stopStrain at once

---
 pkg/dem/UniaxialStrainer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/UniaxialStrainer.cpp b/pkg/dem/UniaxialStrainer.cpp
index 9fadeab..3565ee2 100644
--- a/pkg/dem/UniaxialStrainer.cpp
+++ b/pkg/dem/UniaxialStrainer.cpp
@@ -47,6 +47,7 @@ void UniaxialStrainer::init(){
 	if(std::isnan(strainRate)){ strainRate=absSpeed/originalLength; LOG_INFO("Computed new strainRate "<<strainRate); }
 	else {absSpeed=strainRate*originalLength;}
 
+	if(std::isnan(currentStrainRate)) currentStrainRate=0;
 	if(!setSpeeds){
 		initAccelTime_s=initAccelTime>=0 ? initAccelTime : scene->dt*(-initAccelTime);
 		LOG_INFO("Strain speed will be "<<absSpeed<<", strain rate "<<strainRate<<", will be reached after "<<initAccelTime_s<<"s ("<<initAccelTime_s/scene->dt<<" steps).");
@@ -88,7 +89,7 @@ void UniaxialStrainer::action(){
 	if(posIds.size()==0 || negIds.size()==0) return;
 	// linearly increase strain to the desired value
 	if(std::abs(currentStrainRate)<std::abs(strainRate)){
-		if(initAccelTime_s!=0) currentStrainRate=(scene->time/initAccelTime_s)*strainRate;
+		if(initAccelTime_s!=0) currentStrainRate=std::min((Real)1,scene->time/initAccelTime_s)*strainRate;
 		else currentStrainRate=strainRate;
 	} else currentStrainRate=strainRate;
 	// how much do we move (in total, symmetry handled below)
@@ -96,7 +97,7 @@ void UniaxialStrainer::action(){
 	if(!std::isnan(stopStrain)){
 		Real axialLength=axisCoord(posIds[0])-axisCoord(negIds[0]);
 		Real newStrain=(axialLength+dAX)/originalLength-1;
-		if((newStrain*stopStrain>0) && std::abs(newStrain)>=stopStrain){ // same sign of newStrain and stopStrain && over the limit from below in abs values
+		if((newStrain*stopStrain>0) && std::abs(newStrain)>=std::abs(stopStrain)){ // same sign of newStrain and stopStrain && over the limit from below in abs values
 			dAX=originalLength*(stopStrain+1)-axialLength;
 			LOG_INFO("Reached stopStrain "<<stopStrain<<", deactivating self and stopping in "<<idleIterations+1<<" iterations.");
 			this->active=false;
@@ -123,7 +124,7 @@ void UniaxialStrainer::action(){
 	strain=axialLength/originalLength-1;
 
 	// reverse if we're over the limit strain
-	if(notYetReversed && limitStrain!=0 && ((currentStrainRate>0 && strain>limitStrain) || (currentStrainRate<0 && strain<limitStrain))) { currentStrainRate*=-1; notYetReversed=false; LOG_INFO("Reversed strain rate to "<<currentStrainRate); }
+	if(notYetReversed && limitStrain!=0 && ((currentStrainRate>0 && strain>limitStrain) || (currentStrainRate<0 && strain<limitStrain))) { strainRate*=-1; currentStrainRate=strainRate; notYetReversed=false; LOG_INFO("Reversed strain rate to "<<currentStrainRate); }
 
 	// update forces and stresses
 	if(scene->iter%stressUpdateInterval==0) {
-- 
2.43.0

