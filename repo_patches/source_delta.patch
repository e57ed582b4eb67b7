From 97b07cb7035b04389a38695a715599672fb00f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 01/42] fix: give every Atom field a defined initial value

---
 src/pyscal/atom.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..dcb380e 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -34,6 +34,36 @@ Atom::Atom( vector<double> pos, int idd, int typ){
     energy = 0;
     avg_energy = 0;
 
+    //everything that can be read before it is calculated needs a defined value
+    condition = 0;
+    mask = false;
+    cutoff = 0;
+    frenkelnumber = 0;
+    avq6q6 = 0;
+    structure = 0;
+    sii = 0;
+    disorder = 0;
+    avgdisorder = 0;
+    n3 = n4 = n5 = n6 = 0;
+    volume = 0;
+    avgvolume = 0;
+    angular = 0;
+    avg_angular = 0;
+    centrosymmetry = 0;
+    lcutsmall = 0;
+    lcutlarge = 0;
+    lneigh = 0;
+    sigma = rho = rstart = rstop = h = kb = 0;
+
+    for (int tn = 0; tn<4; tn++){
+        nn1[tn] = -1;
+    }
+
+    for (int tn = 0; tn<13; tn++){
+        realQ6[tn] = 0;
+        imgQ6[tn] = 0;
+    }
+
 
     for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
         neighbors[tn] = -1;
@@ -44,6 +74,12 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         faceperimeters[tn] = -1.0;
         sij[tn] = -1.0;
         masks[tn] = -1;
+        n_diffx[tn] = 0;
+        n_diffy[tn] = 0;
+        n_diffz[tn] = 0;
+        n_r[tn] = 0;
+        n_phi[tn] = 0;
+        n_theta[tn] = 0;
         //edgelengths[tn] = -1.0;
 
     }
-- 
2.43.0


From 08cfe1ab6185a14a0974be856f4e4c81eb1bd274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 02/42] fix: System.set_atoms replaces atoms atomically and
 records their location

---
 src/pyscal/system.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..d906879 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -116,16 +116,18 @@ vector<vector<double>> System::gbox(){
 //this function allows for handling custom formats of atoms and so on
 void System::set_atoms( vector<Atom> atomitos){
 
-    atoms.clear();
-    nop = atomitos.size();
-    atoms.reserve(nop);
-    atoms.assign(atomitos.begin(), atomitos.end());
+    //the list was copied when it was passed in: taking it over cannot fail, so
+    //the atoms are replaced completely or not at all
+    atoms.swap(atomitos);
+    nop = atoms.size();
 
     //now assign ghost and real atoms
     int tg = 0;
     int tl = 0;
 
     for(int i=0; i<nop; i++){
+        //loc is the position of the atom in this list
+        atoms[i].loc = i;
         if(atoms[i].ghost==0){
             tl++;
         }
-- 
2.43.0


From fa3cca3a45c09a2d6cd20a811ed93333d4930ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:19 +0000
Subject: [PATCH 03/42] fix: keep atoms, box and periodic images of a System
 consistent

Reassigning the box or the atoms of a System that has ghost atoms, and writing
back calculated properties, left stale boxes and images without neighbors
behind. add_atoms lost atoms, and get_atom/set_atom were not bounds checked.
---
 src/pyscal/atom_binding.cpp   |  5 ++
 src/pyscal/core.py            | 99 +++++++++++++++++++++++++----------
 src/pyscal/system.cpp         | 48 ++++++++++++++---
 src/pyscal/system.h           |  1 +
 src/pyscal/system_binding.cpp |  1 +
 5 files changed, 120 insertions(+), 34 deletions(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index b334cab..86d0398 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -115,6 +115,11 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
         int specifying ghost status of the atom.
     )mydelimiter")
 
+    .def_readwrite("head", &Atom::head, R"mydelimiter(
+        *int*.
+        If the atom is a ghost atom, index of the atom it is a periodic image of. -1 otherwise.
+    )mydelimiter")
+
     .def_readwrite("custom", &Atom::custom, R"mydelimiter(
         *dict*.
         dictionary specfying custom values for an atom. The module only stores the id, type and
diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..f6d722b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,6 +109,19 @@ class System(pc.System):
         """
         Box setter 
         """
+        #ghost atoms are images in the old box, they have to be created again
+        atoms = self.get_atoms() if self.ghosts_created else None
+        self._assign_box(userbox)
+        self.actual_box = None
+        self.ghosts_created = False
+        self.neighbors_found = False
+        if atoms is not None:
+            self.atoms = atoms
+
+    def _assign_box(self, userbox):
+        """
+        Assign the box in which distances are calculated
+        """
         #we should automatically check for triclinic cells here
         summ = 0
         for i in range(3):
@@ -122,6 +135,8 @@ class System(pc.System):
             rot = np.array(userbox).T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
         self._box = userbox
 
@@ -137,6 +152,9 @@ class System(pc.System):
         """
         Set atoms
         """
+        newbox = self.box
+        actual_box = None
+
         if(len(atoms) < 200):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
@@ -147,9 +165,24 @@ class System(pc.System):
 
             if np.sum(self.box) == 0:
                 raise ValueError("Simulation box should be initialized before atoms")
-            atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
+            actual_box = self.box
+            atoms, newbox = self._replicate((nx, nx, nx), atoms, self.box, ghost=True)
 
         self.set_atoms(atoms)
+        if (actual_box is not None) or (self.actual_box is not None):
+            self._assign_box(newbox)
+        self.actual_box = actual_box
+        self.ghosts_created = (actual_box is not None)
+        if self.ghosts_created:
+            #new ghost atoms do not have neighbors
+            self.neighbors_found = False
+
+    def _update_atoms(self, atoms):
+        """
+        Write back atoms after their properties were modified. In contrast to
+        setting `atoms`, the configuration stays the same, and so do ghost atoms.
+        """
+        self.update_atoms(atoms)
 
     def add_atoms(self, atoms):
         """
@@ -163,7 +196,11 @@ class System(pc.System):
         -------
         None
         """
-        self.cadd_atoms(atoms)
+        if np.sum(self.box) == 0:
+            self.cadd_atoms(atoms)
+        else:
+            #the number of ghost atoms that are needed may change
+            self.atoms = self.atoms + list(atoms)
 
     def read_inputfile(self, filename, format="lammps-dump", compressed = False, customkeys=None):
         """
@@ -214,6 +251,8 @@ class System(pc.System):
         atoms, box = ptp.read_file(filename, format=format, 
                                     compressed=compressed, customkeys=customkeys,
                                         )
+        if len(atoms) == 0:
+            raise ValueError("no atoms were found in the input file")
         self.box = box
         self.atoms = atoms
 
@@ -711,7 +750,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -810,13 +849,13 @@ class System(pc.System):
                 for atom in atoms:
                     cval = condition(atom)
                     atom.condition = cval
-            self.atoms = atoms
+            self._update_atoms(atoms)
 
         if clear_condition:
             atoms = self.atoms
             for atom in atoms:
                 atom.condition = 0
-            self.atoms = atoms
+            self._update_atoms(atoms)
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1049,7 +1088,7 @@ class System(pc.System):
                 cval = condition(atom)
                 atom.condition = cval
         
-        self.atoms = atoms
+        self._update_atoms(atoms)
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1163,7 +1202,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1230,7 +1269,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1512,7 +1551,7 @@ class System(pc.System):
                     atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._update_atoms(atoms[:self.natoms])
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1628,7 +1667,7 @@ class System(pc.System):
                         atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._update_atoms(atoms[:self.natoms])
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1903,7 +1942,7 @@ class System(pc.System):
             neteng = np.sum([atoms[x].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
@@ -1921,13 +1960,26 @@ class System(pc.System):
         ghost : bool, optional
             If True, assign the new atoms as ghost instead of actual atoms
         """
-        
-        box = self.box        
-        self.actual_box = box.copy()
-
         if atoms is None:
             atoms = self.atoms
 
+        actual_box = self.box
+        completeatoms, box = self._replicate(reps, atoms, actual_box, ghost=ghost)
+
+        if scale_box:
+            if ghost:
+                self._assign_box(box)
+                self.actual_box = actual_box
+            else:
+                self.box = box
+        if ghost:
+            self.ghosts_created = True
+        return completeatoms
+
+    def _replicate(self, reps, atoms, box, ghost=False):
+        """
+        Create the atoms and the box of a replicated cell, without assigning them
+        """
         newatoms = []
         idstart = len(atoms) + 1
 
@@ -1947,7 +1999,7 @@ class System(pc.System):
                 for k in range(z1, z2):
                     if (i==j==k==0):
                         continue
-                    for atom in atoms:
+                    for count, atom in enumerate(atoms):
                         pos = np.array(atom.pos)
                         pos = (pos + i*np.array(box[0]) + j*np.array(box[1]) + k*np.array(box[2]))
                         a = Atom()
@@ -1957,19 +2009,12 @@ class System(pc.System):
                         a.type = atom.type
                         if ghost:
                             a.ghost = 1
+                            a.head = count
                         newatoms.append(a)
 
-        if scale_box:
-            box[0] = xs*np.array(box[0])
-            box[1] = ys*np.array(box[1])
-            box[2] = zs*np.array(box[2])
-            self.box = box
-        if ghost:
-            self.ghosts_created = True
-
-        completeatoms = atoms + newatoms
-        #print(len(completeatoms))
-        return completeatoms
+        newbox = [xs*np.array(box[0]), ys*np.array(box[1]), zs*np.array(box[2])]
+        completeatoms = list(atoms) + newatoms
+        return completeatoms, newbox
 
 
     def embed_in_cubic_box(self,):
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d906879..a1226e2 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -173,14 +173,12 @@ void System::add_atoms(vector<Atom> atomitos){
     }
 
     //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
+    if((ghost_nop==0) && (tg==0)){
+        for (int i=0; i<atomitos.size(); i++){
+            atoms.emplace_back(atomitos[i]);
         }
     }
-    else if (ghost_nop>0){
+    else{
         //now the atoms need to be reordered
         vector<Atom> real_atoms;
         vector<Atom> ghost_atoms;        
@@ -221,9 +219,34 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
 }
 
 
+//write back real atoms after their properties were modified. Positions, types
+//and ids stay as they are, and ghost atoms are kept.
+void System::update_atoms(vector<Atom> atomitos){
+
+    if (atomitos.size() != (size_t) real_nop){
+        throw invalid_argument("number of atoms to update should be the number of atoms in the system");
+    }
+
+    for(int i=0; i<real_nop; i++){
+        swap(atoms[i], atomitos[i]);
+        atoms[i].loc = i;
+    }
+
+    //ghosts share the properties that are looked up through neighbors
+    for(int i=real_nop; i<nop; i++){
+        if ((atoms[i].head < 0) || (atoms[i].head >= real_nop)) continue;
+        atoms[i].condition = atoms[atoms[i].head].condition;
+        atoms[i].energy = atoms[atoms[i].head].energy;
+    }
+}
+
 vector<Atom> System::get_all_atoms( ){
     //here, we have to filter ghost atoms
     vector<Atom> retatoms;
@@ -234,10 +257,21 @@ vector<Atom> System::get_all_atoms( ){
 
 }
 
-Atom System::gatom(int i) { return atoms[i]; }
+Atom System::gatom(int i) { return atoms.at(i); }
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    Atom old = atoms.at(idd);
     atoms[idd] = atom1;
+
+    //periodic images of the atom follow it
+    for(int i=real_nop; i<nop; i++){
+        if (atoms[i].head != idd) continue;
+        atoms[i].posx += atom1.posx - old.posx;
+        atoms[i].posy += atom1.posy - old.posy;
+        atoms[i].posz += atom1.posz - old.posz;
+        atoms[i].type = atom1.type;
+        atoms[i].condition = atom1.condition;
+    }
 }
 
 //----------------------------------------------------
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..6130e9d 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -59,6 +59,7 @@ class System{
         void assign_particles( vector<Atom>);
         void read_particle_file(string);    // TBDep
         void set_atoms( vector<Atom>);
+        void update_atoms( vector<Atom>);
         vector<Atom> get_atoms();
         void add_atoms( vector<Atom>);
         vector<Atom> get_all_atoms();
diff --git a/src/pyscal/system_binding.cpp b/src/pyscal/system_binding.cpp
index e2095e5..802f550 100644
--- a/src/pyscal/system_binding.cpp
+++ b/src/pyscal/system_binding.cpp
@@ -53,6 +53,7 @@ PYBIND11_MODULE(csystem, m) {
         .def("get_atoms", &System::get_atoms)
         .def("get_all_atoms", &System::get_all_atoms)
         .def("set_atoms", &System::set_atoms)
+        .def("update_atoms", &System::update_atoms)
         .def("cadd_atoms", &System::add_atoms)
         //.def_readwrite("atoms", &System::atoms)
         .def("cget_atom",  &System::gatom)
-- 
2.43.0


From 09165dbe234d4b10e455080b09f4c773dcf675f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 04/42] fix: detect every triclinic box, and leave the system
 alone in extract_cubic_box

---
 src/pyscal/core.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index f6d722b..52a58e9 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -123,14 +123,11 @@ class System(pc.System):
         Assign the box in which distances are calculated
         """
         #we should automatically check for triclinic cells here
-        summ = 0
-        for i in range(3):
-            box1 = np.array(userbox[i-1])
-            box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
-
-        #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        #a box is orthogonal only if its vectors are along the axes
+        vecs = np.array(userbox, dtype=float)
+        offdiag = vecs - np.diag(np.diag(vecs))
+
+        if (np.max(np.abs(offdiag)) > 1E-6*np.max(np.abs(vecs))):
             #this is a triclinic box
             rot = np.array(userbox).T
             rotinv = np.linalg.inv(rot)
@@ -2086,7 +2083,8 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
-        ratoms = self.repeat(repeat)
+        #the system itself should not change
+        ratoms, rbox = self._replicate(repeat, self.atoms, self.box)
         anchor = ratoms[0]
 
         nb = []
@@ -2098,7 +2096,7 @@ class System(pc.System):
                 if np.abs(atom.pos[ind[0]]-anchor.pos[ind[0]])< 1E-5:
                     if np.abs(atom.pos[ind[1]]-anchor.pos[ind[1]])< 1E-5:
                         if atom.type == anchor.type:
-                            dist = self.get_distance(anchor, atom)
+                            dist = np.linalg.norm(np.array(anchor.pos) - np.array(atom.pos))
                             if dist < mindist:
                                 mindist = dist
                                 minatom = atom
-- 
2.43.0


From de2bba409d302211f6bf1e7eeca6cc6b22dd8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 05/42] fix: cell lists with few cells, large cutoffs,
 triclinic boxes and distant atoms

Pairs were counted several times with fewer than three cells in a direction,
atoms more than one box length outside the box were written out of bounds, and
the cells were never freed.
---
 src/pyscal/system.cpp | 45 ++++++++++++++++++++++++++++---------------
 src/pyscal/system.h   |  2 +-
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index a1226e2..362d321 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -530,9 +530,10 @@ void System::set_up_cells(){
       int si,sj,sk, maincell, subcell;
       vector<int> cc;
       //find of all find the number of cells in each direction
-      nx = boxx/neighbordistance;
-      ny = boxy/neighbordistance;
-      nz = boxz/neighbordistance;
+      //there is at least one cell, even if the cutoff is larger than the box
+      nx = max(1, int(boxx/neighbordistance));
+      ny = max(1, int(boxy/neighbordistance));
+      nz = max(1, int(boxz/neighbordistance));
       //now use this to find length of cell in each direction
       double lx = boxx/nx;
       double ly = boxy/ny;
@@ -540,7 +541,8 @@ void System::set_up_cells(){
       //find the total number of cells
       total_cells = nx*ny*nz;
       //create a vector of cells
-      cells = new cell[total_cells];
+      cells.clear();
+      cells.resize(total_cells);
       //now run over and for each cell create its neighbor cells
       //all neighbor cells are also added
       for(int i=0; i<nx; i++){
@@ -552,8 +554,11 @@ void System::set_up_cells(){
                       for(int sk=k-1; sk<=k+1; sk++){
                          cc = cell_periodic(si, sj, sk);
                          subcell = cell_index(cc[0], cc[1], cc[2]);
-                         //add this to the list of neighbors
-                         cells[maincell].neighbor_cells.emplace_back(subcell);
+                         //add this to the list of neighbors - once, with less than three
+                         //cells in a direction a cell is reached in more than one way
+                         vector<int> &ncells = cells[maincell].neighbor_cells;
+                         if (find(ncells.begin(), ncells.end(), subcell) == ncells.end())
+                             ncells.emplace_back(subcell);
 
                       }
                   }
@@ -582,17 +587,15 @@ void System::set_up_cells(){
           if( abs(dz-0) < 1E-6)
               dz = 0;
 
-          if (dx < 0) dx+=boxx;
-          else if (dx >= boxx) dx-=boxx;
-          if (dy < 0) dy+=boxy;
-          else if (dy >= boxy) dy-=boxy;
-          if (dz < 0) dz+=boxz;
-          else if (dz >= boxz) dz-=boxz;
+          //atoms can be any number of box lengths away
+          dx -= boxx*floor(dx/boxx);
+          dy -= boxy*floor(dy/boxy);
+          dz -= boxz*floor(dz/boxz);
 
           //now find c vals
-          cx = dx/lx;
-          cy = dy/ly;
-          cz = dz/lz;
+          cx = min(nx-1, int(dx/lx));
+          cy = min(ny-1, int(dy/ly));
+          cz = min(nz-1, int(dz/lz));
 
           //now get cell index
           ind = cell_index(cx, cy, cz);
@@ -682,6 +685,12 @@ vector<int> System::cell_periodic(int i, int j, int k){
 //get all neighbor info but using cell lists
 void System::get_all_neighbors_cells(){
 
+    //cells are only for orthogonal boxes
+    if (triclinic == 1){
+        get_all_neighbors_normal();
+        return;
+    }
+
     voronoiused = 0;
 
     double d;
@@ -876,6 +885,12 @@ about 2000 atoms.
 */
 void System::get_temp_neighbors_cells(){
 
+    //cells are only for orthogonal boxes
+    if (triclinic == 1){
+        get_temp_neighbors_brute();
+        return;
+    }
+
     //first create cells
     set_up_cells();
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 6130e9d..2bdedc6 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -74,7 +74,7 @@ class System{
         int usecells;
         int nx, ny, nz;
         int total_cells;
-        cell *cells;
+        vector<cell> cells;
         double neighbordistance;
         void get_all_neighbors_normal();
         void process_neighbor(int, int);
-- 
2.43.0


From e5d534bea09bf0524058d8aecf46d568130322b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 06/42] fix: neighbor searches stay within their arrays and
 report when they could not find enough neighbors

---
 src/pyscal/core.py    |  8 +++++++-
 src/pyscal/system.cpp | 47 +++++++++++++++++++++++++++++++++++--------
 src/pyscal/system.h   |  2 ++
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 52a58e9..8563874 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -527,7 +527,7 @@ class System(pc.System):
 
         """
         #first reset all neighbors
-        self.reset_allneighbors()
+        self.reset_neighbors()
         self.filter = 0
 
         if filter == 'type':
@@ -567,6 +567,12 @@ class System(pc.System):
                 #self.usecells =  (len(self.atoms) > 4000)
                 self.usecells = (self.ntotal > 4000)
                 finished = self.get_all_neighbors_adaptive(threshold, nlimit, padding)
+                #threshold value is probably too low, try increasing it
+                for i in range(2, 11):
+                    if finished:
+                        break
+                    self.reset_allneighbors()
+                    finished = self.get_all_neighbors_adaptive(threshold*i, nlimit, padding)
                 if not finished:
                     raise RuntimeError("Could not find adaptive cutoff")
             else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 362d321..be06be4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -725,6 +725,8 @@ void System::get_all_neighbors_cells(){
                         else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                             continue;
                         }
+                        check_neighbor_space(ti);
+                        check_neighbor_space(tj);
                         //process_neighbor(ti, tj);
                         atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                         atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
@@ -789,6 +791,8 @@ void System::get_all_neighbors_normal(){
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                check_neighbor_space(ti);
+                check_neighbor_space(tj);
                 //process_neighbor(ti, tj);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
@@ -825,6 +829,12 @@ void System::get_all_neighbors_normal(){
 
 }
 
+void System::check_neighbor_space(int ti){
+    //neighbors are stored in arrays of fixed length
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS)
+        throw runtime_error("an atom has more neighbors than can be stored, try a smaller cutoff");
+}
+
 void System::process_neighbor(int ti, int tj){
     /*
     Calculate all info and add it to list
@@ -836,6 +846,7 @@ void System::process_neighbor(int ti, int tj){
     double d, diffx, diffy, diffz;
     double r, phi, theta;
 
+    check_neighbor_space(ti);
     d = get_abs_distance(ti, tj, diffx,diffy,diffz);
 
     atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
@@ -990,21 +1001,22 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         get_temp_neighbors_brute();
     }
     for (int ti=0; ti<nop; ti++){
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
         if (atoms[ti].temp_neighbors.size() < nns){
-            return 0;
+            finished = 0;
+            continue;
         }
 
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
         if(assign == 1){
             //assign the neighbors
             for(int i=0; i<nns; i++){
                 int tj = atoms[ti].temp_neighbors[i].index;
                 process_neighbor(ti, tj);
             }
+            if (nns > 0)
+                atoms[ti].cutoff = atoms[ti].temp_neighbors[nns-1].dist;
         }
-
-        finished = 1;            
     }
 
 
@@ -1215,6 +1227,9 @@ int System::get_all_neighbors_sann(double prefactor){
             //increase m
             m = m+1;
 
+            //no more candidates, threshold is too low
+            if (m == maxneighs) break;
+
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
             process_neighbor(ti, tj);
@@ -1253,6 +1268,10 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
 
     double summ;
     double boxvol;
+
+    //reset voronoi flag
+    voronoiused = 0;
+
     //some guesswork here
     //find the box volumes
     if (triclinic==1){
@@ -1310,6 +1329,12 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         }
         dcut = padding*(1.0/float(nlimit))*summ;
 
+        //atoms beyond the guess were not considered
+        if (dcut > neighbordistance){
+            return 0;
+        }
+        atoms[ti].cutoff = dcut;
+
         //now we are ready to loop over again, but over the lists
         for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
             int tj = atoms[ti].temp_neighbors[j].index;
@@ -1321,6 +1346,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                check_neighbor_space(ti);
                 d = get_abs_distance(ti,tj,diffx,diffy,diffz);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
@@ -1334,7 +1360,6 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                 atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
                 atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
                 atoms[ti].n_neighbors += 1;
-                atoms[ti].cutoff = dcut;
 
             }
         }
@@ -2091,6 +2116,10 @@ void System::get_diamond_neighbors(){
     latest identification.
     */
     reset_main_neighbors();
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < 4)
+            throw runtime_error("neighbors for diamond identification were not found");
+    }
     for (int ti=0; ti<nop; ti++){
         //cout<<"ti = "<<ti<<endl;
         //start loop
@@ -2135,7 +2164,7 @@ void System::get_cna_neighbors(int style){
 
     for (int ti=0; ti<nop; ti++){
         atoms[ti].cutoff = factor*lattice_constant;
-        for(int i=0 ; i<ncount; i++){
+        for(int i=0 ; i<min(ncount, (int) atoms[ti].temp_neighbors.size()); i++){
             int tj = atoms[ti].temp_neighbors[i].index;
             //dist = atoms[ti].temp_neighbors[i].dist;
             //if (dist <= atoms[ti].cutoff)
@@ -2491,6 +2520,7 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
+    reset_all_neighbors();
     get_all_neighbors_bynumber(3, 14, 0);
 
     //first we start by checking for 12 CN 
@@ -2630,7 +2660,8 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    if (!get_all_neighbors_bynumber(3, nmax, 1))
+        throw runtime_error("could not find enough neighbors to calculate centrosymmetry");
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 2bdedc6..f71ab24 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iostream>
 #include <exception>
+#include <stdexcept>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -77,6 +78,7 @@ class System{
         vector<cell> cells;
         double neighbordistance;
         void get_all_neighbors_normal();
+        void check_neighbor_space(int);
         void process_neighbor(int, int);
         int get_all_neighbors_sann(double);
         int get_all_neighbors_bynumber(double, int, int);
-- 
2.43.0


From 7b58148572e50fdc8f4b693ee54660d8d7abf920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 07/42] fix: Voronoi neighbors with filters and in triclinic or
 small boxes

---
 src/pyscal/core.py    | 51 ++++++++++++-------------------------------
 src/pyscal/system.cpp | 45 ++++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 56 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 8563874..8e8912e 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -597,19 +597,22 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
-            #copy the simulation cell
-            backupbox = self._box.copy()
+            backupbox = None
             if self.triclinic:
                 if not self.ghosts_created:
                     atoms  = self.get_atoms()
                     atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
                     self.set_atoms(atoms)
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
-            self.get_all_neighbors_voronoi()
+                #copy the simulation cell
+                backupbox = self._box.copy()
+                self.embed_in_cubic_box()
 
-            #replace box
-            self.box = backupbox
+            try:
+                self.get_all_neighbors_voronoi()
+            finally:
+                #replace box
+                if backupbox is not None:
+                    self._assign_box(backupbox)
 
         self.neighbors_found = True
 
@@ -2029,35 +2032,9 @@ class System(pc.System):
         box = self._box
         backupbox = box.copy()
         
-        a = np.array(box[0])
-        b = np.array(box[1])
-        c = np.array(box[2])
-
-        cosa = np.dot(b, c)/(np.linalg.norm(b)*np.linalg.norm(c))
-        cosb = np.dot(c, a)/(np.linalg.norm(c)*np.linalg.norm(a))
-        cosc = np.dot(a, b)/(np.linalg.norm(a)*np.linalg.norm(b))
-
-        lx = np.linalg.norm(a)
-        xy = np.linalg.norm(b)*cosc
-        xz = np.linalg.norm(c)*cosb
-        ly = np.sqrt(np.linalg.norm(b)*np.linalg.norm(b) - xy*xy)
-        yz = (np.linalg.norm(b)*np.linalg.norm(c)*cosa - xy*xz)/ly
-        lz = np.sqrt(np.linalg.norm(c)*np.linalg.norm(c) - xz*xz - yz*yz)
-
-        xlo = ylo = zlo = 0
-        xhi = lx
-        yhi = ly
-        zhi = lz
-
-        xlo_bound = xlo + min(0.0,xy,xz,xy+xz)
-        xhi_bound = xhi + max(0.0,xy,xz,xy+xz)
-        ylo_bound = ylo + min(0.0,yz)
-        yhi_bound = yhi + max(0.0,yz)
-        zlo_bound = zlo
-        zhi_bound = zhi
-
-        newbox = np.array([[xhi_bound-xlo_bound, 0, 0], [0, yhi_bound-ylo_bound, 0], [0, 0, zhi_bound-zlo_bound]])
-        
+        #extent of the box along the axes
+        newbox = np.diag(np.sum(np.abs(np.array(box)), axis=0))
+
         #we also need to remap atoms
         #atoms = self.get_all_atoms()
         #for atom in atoms:
@@ -2069,7 +2046,7 @@ class System(pc.System):
 
 
         self.newbox = newbox
-        self.box = newbox
+        self._assign_box(newbox)
         #self.atoms = atoms
 
     def extract_cubic_box(self, repeat=(3,3,3)):
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index be06be4..ff33c77 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1563,11 +1563,9 @@ void System::calculate_q(vector <int> qs){
                     weightsum += atoms[ti].neighborweight[ci];
                 }
 
-            //the weights are not normalised,
-            if(!voronoiused){
-                realti = realti/float(weightsum);
-                imgti = imgti/float(weightsum);
-            }
+            //the weights are not normalised
+            realti = realti/float(weightsum);
+            imgti = imgti/float(weightsum);
 
 
             atoms[ti].realq[q-2][mi+q] = realti;
@@ -2028,10 +2026,10 @@ void System::get_all_neighbors_voronoi(){
             //assign to nvector
             atoms[ti].volume = vol;
             atoms[ti].vertex_vectors = v;
-            atoms[ti].vertex_numbers = vert_nos;
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
+            atoms[ti].vertex_positions.clear();
             nverts = int(v.size())/3;
             pos = atoms[ti].gx();
             for(int si=0; si<nverts; si++){
@@ -2052,30 +2050,39 @@ void System::get_all_neighbors_voronoi(){
             //for (int i=0; i<facearea.size(); i++){
             //    weightsum += facearea[i];
             //}
+            atoms[ti].vertex_numbers.clear();
+            int face = 0;
             for (int tj=0; tj<neigh.size(); tj++){
+                //vertices of this face follow their number
+                int facebegin = face;
+                face += vert_nos[face] + 1;
 
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
                     continue;
                 }
-                atoms[ti].neighbors[tj] = neigh[tj];
+                check_neighbor_space(ti);
+                int tn = atoms[ti].n_neighbors;
+                for (int vi=facebegin; vi<face; vi++)
+                    atoms[ti].vertex_numbers.emplace_back(vert_nos[vi]);
+                atoms[ti].neighbors[tn] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
+                atoms[ti].neighbordist[tn] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
+                atoms[ti].neighborweight[tn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[tn] = f_vert[tj];
+                atoms[ti].faceperimeters[tn] = faceperimeters[tj];
+                atoms[ti].n_diffx[tn] = diffx;
+                atoms[ti].n_diffy[tn] = diffy;
+                atoms[ti].n_diffz[tn] = diffz;
                 convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
+                atoms[ti].n_r[tn] = r;
+                atoms[ti].n_phi[tn] = phi;
+                atoms[ti].n_theta[tn] = theta;
 
             }
 
-- 
2.43.0


From 89f7d81075933243d135da7a6e0bd03068ab1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 08/42] fix: order parameters of solids, disorder, entropy and
 angular criteria

---
 src/pyscal/core.py    | 12 +++++-------
 src/pyscal/system.cpp | 23 +++++++++++++----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 8e8912e..1ed8d7d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -985,6 +985,7 @@ class System(pc.System):
         #self.calculate_q(6)
         #calculate solid neighs
         self.set_nucsize_parameters(bonds, threshold, avgthreshold)
+        self.comparecriteria = 0 if right else 1
         self.calculate_frenkelnumbers()
         #now find solids
         self.find_solid_atoms()
@@ -1184,13 +1185,9 @@ class System(pc.System):
             distneighs = []
             distvectors = []
 
-            neighs = atom.neighbors
-
-            for neigh in neighs:
-                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
-                dists.append(dist)
-                distneighs.append(neigh)
-                distvectors.append(vectors)
+            dists = atom.neighbor_distance
+            distneighs = atom.neighbors
+            distvectors = atom.neighbor_vector
 
             args = np.argsort(dists)
             #find top four
@@ -1461,6 +1458,7 @@ class System(pc.System):
         else:
             raise ValueError("q values should be between 2-12")
 
+        self.ccalculate_q([q])
         self.ccalculate_disorder()
 
         if averaged:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index ff33c77..d691212 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1690,13 +1690,14 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+        for(int c=0; c<atoms[ti].n_neighbors; c++){
+            int tj = atoms[ti].neighbors[c];
+            sumSquareti = 0.0;
+            sumSquaretj = 0.0;
+            realdotproduct = 0.0;
+            imgdotproduct = 0.0;
             for (int mi = 0;mi < 2*solidq+1 ;mi++){
                 sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
                 sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
@@ -1788,11 +1789,13 @@ void System::calculate_frenkel_numbers(){
 
             scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
             atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
+            if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-            else
+            }
+            else{
                 if (scalar < threshold) frenkelcons += 1;
-            
+            }
+
             atoms[ti].avq6q6 += scalar;
         }
 
@@ -2613,10 +2616,10 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
     for(int i=0; i<nop; i++){
         
         atoms[i].sigma = sigma;
+        atoms[i].rho = rho;
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From ff25ae208cb068f3a996bfd8777528027c3a6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 09/42] fix: distances, pair distribution and remapping in
 systems with periodic images

---
 src/pyscal/core.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 1ed8d7d..d1452e5 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -338,9 +338,10 @@ class System(pc.System):
         r = bin_edges[:-1]
 
         #get box density
-        boxvecs = self.box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        #distances are between all atoms, including ghosts
+        boxvecs = self._box
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
@@ -418,6 +419,14 @@ class System(pc.System):
         -----
         Periodic boundary conditions are assumed by default.
         """
+        if self.actual_box is not None:
+            #distances in csystem are those in the box with ghost atoms
+            box = np.array(self.actual_box, dtype=float)
+            frac = np.dot(np.array(atom1.pos) - np.array(atom2.pos), np.linalg.inv(box))
+            displacement_vector = list(np.dot(frac - np.round(frac), box))
+            distance = float(np.linalg.norm(displacement_vector))
+            return (distance, displacement_vector) if vector else distance
+
         if vector:
             displacement_vector = self.get_absdistance_vector(atom1, atom2)
             return self.get_absdistance(atom1, atom2), displacement_vector
@@ -1532,7 +1541,7 @@ class System(pc.System):
             if atom.type == reference_type:
                 neighs = atom.neighbors
                 #get all neighbor distances
-                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
+                distances = atom.neighbor_distance
                 avgdistance = np.mean(distances)
                 distsplit = avgdistance/2.00
                 #find two shells of atoms
@@ -1639,7 +1648,7 @@ class System(pc.System):
             if atom.type == reference_type:
                 neighs = atom.neighbors
                 #get all neighbor distances
-                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
+                distances = atom.neighbor_distance
                 avgdistance = np.mean(distances)
                 distsplit = avgdistance/2.00
                 #find two shells of atoms
@@ -2196,13 +2205,13 @@ class System(pc.System):
                 if count not in pairs:
                     newatoms.append(atom)
             if assign:
-                self.set_atoms(newatoms)
+                self.atoms = newatoms
                 return None
             else:
                 return newatoms
 
         if assign:
-            self.set_atoms(atoms)
+            self.atoms = atoms
             return None
         else:
             return atoms
-- 
2.43.0


From f3ff2704fd56025ef81443b55f33d73f529b3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:41 +0000
Subject: [PATCH 10/42] fix: clusters do not depend on the order of atoms, and
 span periodic boundaries

---
 src/pyscal/core.py            | 14 +++---
 src/pyscal/system.cpp         | 94 +++++++++++++++++++++--------------
 src/pyscal/system.h           |  4 +-
 src/pyscal/system_binding.cpp |  2 +
 4 files changed, 69 insertions(+), 45 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index d1452e5..65dd362 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1097,15 +1097,15 @@ class System(pc.System):
         atoms = self.atoms
 
         if isatomattr:
-            for atom in atoms:
-                atom.condition = self.get_custom(atom, [condition])[0]
+            values = [int(self.get_custom(atom, [condition])[0]) for atom in atoms]
         else:
-            for atom in atoms:
-                cval = condition(atom)
-                atom.condition = cval
-        
-        self._update_atoms(atoms)
+            values = [int(condition(atom)) for atom in atoms]
+
+        #the condition is only for clustering, and not for other calculations
+        previous = self.cget_conditions()
+        self.cset_conditions(values)
         self.cfind_clusters_recursive(cutoff)
+        self.cset_conditions(previous)
 
         #done!
         lc = self.find_largest_cluster()
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d691212..19572b5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1862,48 +1862,71 @@ void System::find_clusters(double clustercutoff){
         }
 }
 
-//we have to test with a recursive algorithm - to match the values that is presented
-//in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex){
+//atoms are the same as their periodic images
+int System::real_index(int ti){
+    if (ti < real_nop) return ti;
+    int head = atoms[ti].head;
+    return ((head >= 0) && (head < real_nop)) ? head : ti;
+}
 
-    int neigh;
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        neigh = atoms[ti].neighbors[i];
-        if (atoms[neigh].ghost) continue;
-        if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
-        if (atoms[neigh].belongsto==-1){
-            atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex);
-        }
+void System::set_conditions(vector<int> conditions){
+    if (conditions.size() != (size_t) real_nop){
+        throw invalid_argument("number of conditions should be the number of atoms in the system");
+    }
+    for(int ti=0; ti<nop; ti++){
+        int tr = real_index(ti);
+        if (tr < real_nop) atoms[ti].condition = conditions[tr];
     }
 }
 
-void System::find_clusters_recursive(double clustercutoff){
-
-  if (clustercutoff != 0){
-    for(int ti=0; ti<nop;ti++){
-        atoms[ti].cutoff = clustercutoff;
+vector<int> System::get_conditions(){
+    vector<int> conditions;
+    for(int ti=0; ti<real_nop; ti++){
+        conditions.emplace_back(atoms[ti].condition);
     }
-  }
+    return conditions;
+}
 
-    int clusterindex;
-    clusterindex = 0;
+void System::find_clusters_recursive(double clustercutoff){
+
+    int clusterindex = 0;
+    double cutoff;
+    int neigh;
 
-    //reset belongsto indices
-    for(int ti=0; ti<real_nop;ti++){
+    //atoms belong to the same cluster if either of them is within the
+    //cutoff of the other
+    vector< vector<int> > links(real_nop);
+    for (int ti=0; ti<real_nop; ti++){
         atoms[ti].belongsto = -1;
+        if (!atoms[ti].condition) continue;
+        cutoff = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
+        for(int i=0; i<atoms[ti].n_neighbors; i++){
+            neigh = real_index(atoms[ti].neighbors[i]);
+            if (neigh >= real_nop) continue;
+            if (!atoms[neigh].condition) continue;
+            if (!(atoms[ti].neighbordist[i] <= cutoff)) continue;
+            links[ti].emplace_back(neigh);
+            links[neigh].emplace_back(ti);
+        }
     }
 
-    for (int ti= 0;ti<real_nop;ti++){
+    vector<int> pending;
+    for (int ti=0; ti<real_nop; ti++){
         if (!atoms[ti].condition) continue;
-        if (atoms[ti].ghost) continue;
-        if (atoms[ti].belongsto==-1){
-            clusterindex += 1;
-            atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex);
+        if (atoms[ti].belongsto != -1) continue;
+        clusterindex += 1;
+        atoms[ti].belongsto = clusterindex;
+        pending.emplace_back(ti);
+        while (!pending.empty()){
+            int tj = pending.back();
+            pending.pop_back();
+            for(size_t i=0; i<links[tj].size(); i++){
+                neigh = links[tj][i];
+                if (atoms[neigh].belongsto != -1) continue;
+                atoms[neigh].belongsto = clusterindex;
+                pending.emplace_back(neigh);
+            }
         }
-
     }
 }
 
@@ -1911,10 +1934,7 @@ void System::find_clusters_recursive(double clustercutoff){
 
 int System::largest_cluster(){
 
-        int *freq = new int[nop];
-        for(int ti=0;ti<real_nop;ti++){
-            freq[ti] = 0;
-        }
+        vector<int> freq(real_nop, 0);
 
         for (int ti= 0;ti<real_nop;ti++)
         {
@@ -1923,6 +1943,7 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        maxclusterid = -1;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
@@ -1942,15 +1963,14 @@ void System::get_largest_cluster_atoms(){
             atoms[ti].issurface = 1;
             atoms[ti].lcluster = 0;
             //if its in same cluster as max cluster assign it as one
-            if(atoms[ti].belongsto == maxclusterid){
+            if((maxclusterid != -1) && (atoms[ti].belongsto == maxclusterid)){
                 atoms[ti].lcluster = 1;
             }
            //if its solid- identfy if it has liquid
             if(atoms[ti].issolid == 1){
                 atoms[ti].issurface = 0;
                 for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
-                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
+                    if(atoms[real_index(atoms[ti].neighbors[tj])].issolid == 0){
                         atoms[ti].issurface = 1;
                         break;
                     }
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index f71ab24..15e453c 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -143,7 +143,9 @@ class System{
         int comparecriteria;
         void find_solid_atoms();
         void find_clusters(double);
-        void harvest_cluster(const int, const int);
+        int real_index(int);
+        void set_conditions(vector<int>);
+        vector<int> get_conditions();
         void find_clusters_recursive(double);
         int largest_cluster();
         void set_nucsize_parameters(double,double,double);
diff --git a/src/pyscal/system_binding.cpp b/src/pyscal/system_binding.cpp
index 802f550..e903831 100644
--- a/src/pyscal/system_binding.cpp
+++ b/src/pyscal/system_binding.cpp
@@ -100,6 +100,8 @@ PYBIND11_MODULE(csystem, m) {
         .def("calculate_frenkelnumbers",&System::calculate_frenkel_numbers)
         .def("cfind_clusters",&System::find_clusters)
         .def("cfind_clusters_recursive",&System::find_clusters_recursive)
+        .def("cset_conditions",&System::set_conditions)
+        .def("cget_conditions",&System::get_conditions)
         .def("find_largest_cluster",&System::largest_cluster)
         .def("get_largest_cluster_atoms",&System::get_largest_cluster_atoms)
         .def("find_solid_atoms",&System::find_solid_atoms)
-- 
2.43.0


From 23e2d8d8045e7ff4d3a854efa308fdd2f6a8ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 11/42] fix: dump files keep triclinic boxes, and incomplete
 ones are not read silently

---
 src/pyscal/formats/lammps.py | 42 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..3c52ece 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -170,6 +170,9 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
     if not islist:
         f.close()
 
+    if not paramsread or len(atoms) != natoms:
+        raise ValueError("input file is not complete")
+
     if triclinic:
         #process triclinic box
         amin = min([0.0, tilts[0], tilts[1] ,tilts[0]+tilts[1]])
@@ -190,12 +193,12 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
 
         rot = np.array([a, b, c]).T
         rotinv = np.linalg.inv(rot)
-        ortho_origin = np.array([boxx[0], boxy[0], boxz[0]])
+        origin = np.array([xlo, ylo, zlo])
 
-        for atom in atoms:
-            #correct zero of the atomic positions (shift box to origin)
-            dist = np.array(atom.pos) - ortho_origin
-            atom.pos = dist
+        #correct zero of the atomic positions (shift box to origin)
+        if not scaled:
+            for atom in atoms:
+                atom.pos = np.array(atom.pos) - origin
 
         #finally change boxdims - to triclinic box size
         box = np.array([a, b, c])
@@ -249,12 +252,30 @@ def write_snap(sys, outfile, compressed = False,
     if customkeys == None:
         customkeys = []
 
-    box = sys.box
+    box = np.array(sys.box)
     boxx = np.sqrt(np.sum(np.array(box[0])**2))
     boxy = np.sqrt(np.sum(np.array(box[1])**2))
     boxz = np.sqrt(np.sum(np.array(box[2])**2))
 
     atoms = sys.atoms
+    positions = [atom.pos for atom in atoms]
+    bounds = ["%f %f" % (0, boxx), "%f %f" % (0, boxy), "%f %f" % (0, boxz)]
+    boundsheader = "ITEM: BOX BOUNDS"
+
+    if sys.triclinic:
+        #lammps needs the first vector along x and second one in the xy plane
+        xy = np.dot(box[0], box[1])/boxx
+        xz = np.dot(box[0], box[2])/boxx
+        ly = np.sqrt(boxy**2 - xy**2)
+        yz = (np.dot(box[1], box[2]) - xy*xz)/ly
+        lz = np.sqrt(boxz**2 - xz**2 - yz**2)
+        newbox = np.array([[boxx, 0, 0], [xy, ly, 0], [xz, yz, lz]])
+        if not np.allclose(box, newbox):
+            positions = np.dot(np.dot(positions, np.linalg.inv(box)), newbox)
+        boundsheader = "ITEM: BOX BOUNDS xy xz yz pp pp pp"
+        bounds = ["%f %f %f" % (min(0, xy, xz, xy+xz), boxx + max(0, xy, xz, xy+xz), xy),
+                  "%f %f %f" % (min(0, yz), ly + max(0, yz), xz),
+                  "%f %f %f" % (0, lz, yz)]
 
     if len(customkeys) > 0:
         if customvals is None:
@@ -284,10 +305,9 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    dump.write(boundsheader+"\n")
+    for bound in bounds:
+        dump.write(bound+"\n")
 
     #now write header
     if len(customkeys) > 0:
@@ -299,7 +319,7 @@ def write_snap(sys, outfile, compressed = False,
     dump.write(title_str)
 
     for cc, atom in enumerate(atoms):
-        pos = atom.pos
+        pos = positions[cc]
         if len(customkeys) > 0:
             cval_atom = " ".join(np.array(list(cvals[cc])).astype(str))
             atomline = ("%d %d %f %f %f %s\n")%(atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
-- 
2.43.0


From f3f5d3ba4ac1ef8143594be7e51887300ebc7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 12/42] fix: trajectory indices, sums of slices and modified
 blocks

---
 src/pyscal/trajectory.py | 73 ++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..2c9e9df 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,13 +90,10 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
+        timeslice = Timeslice(self.trajectory, self.blocklist)
+        timeslice.trajectories = self.trajectories + ntraj.trajectories
+        timeslice.blocklists = self.blocklists + ntraj.blocklists
+        return timeslice
 
 
     def __radd__(self, ntraj):
@@ -157,9 +154,13 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
-                data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                #blocks that are already loaded might be modified
+                loaded = traj.loadlist[x]
+                if not loaded:
+                    traj.load(x)
+                data.append(traj.data[x])
+                if not loaded:
+                    traj.unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
@@ -181,10 +182,9 @@ class Timeslice:
         None
 
         """
-        fout = open(outfile, mode)
-        for count, traj in enumerate(self.trajectories):
-            self.trajectories[count]._get_blocks_to_file(fout, self.blocklists[count])
-        fout.close()
+        with open(outfile, mode) as fout:
+            for count, traj in enumerate(self.trajectories):
+                self.trajectories[count]._get_blocks_to_file(fout, self.blocklists[count])
 
 
     #def to_hdf(self, outfile, keys=None, mode='w', compression="gzip"):
@@ -279,7 +279,9 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
-            blocklist = [blockno]
+            if not (-self.nblocks <= blockno < self.nblocks):
+                raise IndexError("block %d does not exist, there are %d blocks"%(blockno, self.nblocks))
+            blocklist = [blockno % self.nblocks]
             timeslice = Timeslice(self, blocklist)
             return timeslice
 
@@ -315,11 +317,12 @@ class Trajectory:
         line_offset = []
         offset = 0
         nlines = 0
-        for line in open(self.filename, 'rb'):
-            line_offset.append(offset)
-            offset += len(line)
-            nlines += 1
-        
+        with open(self.filename, 'rb') as fin:
+            for line in fin:
+                line_offset.append(offset)
+                offset += len(line)
+                nlines += 1
+
         self.nlines = nlines
         self.line_offset = line_offset
         return nlines
@@ -373,13 +376,14 @@ class Trajectory:
         """
         if n_slices is None:
             n_slices = self.nblocks
+        n_slices = min(n_slices, self.nblocks)
 
         if method == "ascending":
             for i in range(n_slices):
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
@@ -403,17 +407,18 @@ class Trajectory:
         data : list
             list of strings containing data
         """
+        if not (0 <= blockno < self.nblocks):
+            raise IndexError("block %d does not exist, there are %d blocks"%(blockno, self.nblocks))
         start = blockno*self.blocksize
-        stop = (blockno+1)*self.blocksize
-
-        fin = open(self.filename, "rb")
-        fin.seek(0)
-        fin.seek(self.line_offset[start])
 
         data = []
-        for i in range(self.blocksize):
-            line = fin.readline().decode("utf-8")
-            data.append(line)
+        with open(self.filename, "rb") as fin:
+            fin.seek(self.line_offset[start])
+            for i in range(self.blocksize):
+                line = fin.readline().decode("utf-8")
+                if line == "":
+                    raise EOFError("block %d is not complete in %s"%(blockno, self.filename))
+                data.append(line)
         return data
 
     def load(self, blockno):
@@ -441,7 +446,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
@@ -485,12 +490,8 @@ class Trajectory:
         """
         dd = self.data[blockno]
 
-        data = []
-        data.append("ITEM: TIMESTEP\n")
-        data.append("".join([str(0), os.linesep]))
-        data.append("ITEM: NUMBER OF ATOMS\n")
-        data.append("".join([str(self.natoms), os.linesep]))
-        data.append("ITEM: BOX BOUNDS pp pp pp\n")
+        #timestep and the type of box stay the same
+        data = self.get_block(blockno)[:5]
         for b in dd["box"]:
             dstr = " ".join(b.astype(str))
             data.append("".join([dstr, os.linesep]))
-- 
2.43.0


From e785e808c8b31a64ef6a669bcd404a1d364afff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 13/42] fix: conversion to ase does not change the system, ase
 formats can be used

---
 src/pyscal/formats/ase.py  | 13 +++++--------
 src/pyscal/traj_process.py | 12 ++++++------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..526f653 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -105,11 +105,7 @@ def convert_snap(sys, species=None):
         unique_types = np.unique(types)
         if not (len(unique_types) == len(species)):
             raise ValueError("Length of species and number of types found in system are different. Maybe you specified \"Au\" instead of [\"Au\"]")
-        #now assign the species to custom
-        
-        for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
+        atomspecies = [species[int(atom.type-1)] for atom in atoms]
         #we should also get the unique species key
         specieskey = "".join(species)
     else:
@@ -125,7 +121,8 @@ def convert_snap(sys, species=None):
                     species.append(atom.custom['species'])
                     break
         specieskey = "".join(species)
-      
+        atomspecies = [atom.custom['species'] for atom in atoms]
+
     cell = sys.box
     pbc = [1, 1, 1]
 
@@ -136,8 +133,8 @@ def convert_snap(sys, species=None):
     
     #thats everything pretty much
     #now create ase Atom
-    for atom in atoms:
-        aseatom = Atom(atom.custom['species'], atom.pos)
+    for atom, symbol in zip(atoms, atomspecies):
+        aseatom = Atom(symbol, atom.pos)
         aseobject.append(aseatom)
     #done
     return aseobject
diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..b8ba0d9 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -66,9 +66,9 @@ def read_file(filename, format="lammps-dump",
             #try to use ASE backend
             aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
-        except:
-            raise TypeError("format recieved an unknown option %s"%format)
+        except Exception as err:
+            raise TypeError("format recieved an unknown option %s"%format) from err
+        warnings.warn("Using ase backend to read file")
 
     return atoms, box       
 
@@ -129,9 +129,9 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         try:
             aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
-        except:
-            raise TypeError("format recieved an unknown option %s"%format)
+        except Exception as err:
+            raise TypeError("format recieved an unknown option %s"%format) from err
+        warnings.warn("Using ase backend to write file")
 
 
 def split_trajectory(infile, format='lammps-dump', compressed=False):
-- 
2.43.0


From 88e6d3cc050ccf5f293314251a6d94665959121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 14/42] fix: energies are assigned to the right atoms and the
 temporary file is removed

---
 src/pyscal/core.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 65dd362..0873a0a 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1933,27 +1933,34 @@ class System(pc.System):
         with an adaptive cutoff method.
         """
         outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
-        aseobject = self.to_file(outfile, format='lammps-data', species=species)
-
-        indict = routines.get_energy_atom(outfile, species=species,
-            pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=1.0)
-
-        atoms = self.atoms
-    
-        for atom in atoms:
-            atom.energy = indict[str(atom.id)]
+        try:
+            aseobject = self.to_file(outfile, format='lammps-data', species=species)
 
-        #clean up
-        os.remove(outfile)
+            indict = routines.get_energy_atom(outfile, species=species,
+                pair_style=pair_style, pair_coeff=pair_coeff,
+                mass=mass)
+        finally:
+            #clean up
+            if os.path.exists(outfile):
+                os.remove(outfile)
 
         if averaged:
             if not self.neighbors_found:
                 self.find_neighbors(method="cutoff", cutoff=0)
 
-        for atom in atoms:
-            neteng = np.sum([atoms[x].energy for x in atom.neighbors])
-            atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
+        atoms = self.atoms
+
+        #atoms are numbered by their position in the file
+        for count, atom in enumerate(atoms):
+            atom.energy = indict[str(count+1)]
+
+        if averaged:
+            #ghost atoms have the energy of the real ones
+            energies = [atom.energy for atom in atoms]
+            energies += [energies[atom.head] for atom in self.get_all_atoms()[len(atoms):]]
+            for atom in atoms:
+                neteng = np.sum([energies[x] for x in atom.neighbors])
+                atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
         self._update_atoms(atoms)
 
-- 
2.43.0


From 2b767fddc52405ac02442f91122619162d28c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 15/42] fix: a trajectory with an incomplete header is not
 opened

---
 src/pyscal/trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 2c9e9df..f80abc7 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -298,7 +298,10 @@ class Trajectory:
         None
         """
         with open(self.filename, "rb") as fout:
-            data = [next(fout) for x in range(0, 4)]
+            data = [fout.readline() for x in range(0, 4)]
+        if not data[-1].endswith(b"\n"):
+            #the number of atoms might be cut off
+            raise EOFError("header is not complete in %s"%self.filename)
         self.natoms = (int(data[-1]))
 
     def _get_nlines(self):
-- 
2.43.0


From c1321cc5da9b22e275a75aba28a2a8c21e0a93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 16/42] fix: files are closed when writing them fails

---
 src/pyscal/formats/lammps.py | 21 ++++++++-------------
 src/pyscal/formats/vasp.py   |  9 +++++++--
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 3c52ece..a87f1a1 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -293,12 +293,11 @@ def write_snap(sys, outfile, compressed = False,
     if isinstance(outfile, io.IOBase):
         dump = outfile
     else:
-        if compressed:
-            gz = gzip.open(outfile,'wt')
-            dump = gz
-        else:
-            gz = open(outfile,'w')
-            dump = gz
+        #the file has to be closed if writing fails, otherwise what is left
+        #in its buffer could be written at any later time
+        with (gzip.open(outfile,'wt') if compressed else open(outfile,'w')) as dump:
+            write_snap(sys, dump, customkeys=customkeys, customvals=customvals, timestep=timestep)
+        return
 
     #now write
     dump.write("ITEM: TIMESTEP\n")
@@ -328,9 +327,6 @@ def write_snap(sys, outfile, compressed = False,
 
         dump.write(atomline)
 
-    if not isinstance(outfile, io.IOBase):
-        dump.close()
-
 
 def split_snaps(infile, compressed = False):
     """
@@ -392,10 +388,9 @@ def split_snaps(infile, compressed = False):
         else:
             lines.append(line)
             snaps.append(ff)
-            fout = open(ff,'w')
-            for wline in lines:
-                fout.write(wline)
-            fout.close()
+            with open(ff,'w') as fout:
+                for wline in lines:
+                    fout.write(wline)
 
             count=0
             startblock+=1
diff --git a/src/pyscal/formats/vasp.py b/src/pyscal/formats/vasp.py
index ff42399..97ad4b9 100644
--- a/src/pyscal/formats/vasp.py
+++ b/src/pyscal/formats/vasp.py
@@ -77,8 +77,14 @@ def write_poscar(sys, outfile, comments="pyscal"):
         name of the input file
     """
 
-    fout = open(outfile, 'w')
+    #the file has to be closed if writing fails as well
+    with open(outfile, 'w') as fout:
+        _write_poscar(sys, fout, comments)
 
+def _write_poscar(sys, fout, comments):
+    """
+    Write POSCAR format to an open file
+    """
     fout.write(comments+"\n")
     fout.write("   1.00000000000000\n")
 
@@ -112,4 +118,3 @@ def write_poscar(sys, outfile, comments="pyscal"):
             pos = atom.pos
             fout.write(" %1.14f %1.14f %1.14f\n"%(pos[0], pos[1], pos[2]))
 
-    fout.close()
-- 
2.43.0


From f1ffd915ae46b18e532297edcca164e1417a3f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:49 +0000
Subject: [PATCH 17/42] fix: atoms and box are assigned together or not at all

---
 src/pyscal/core.py | 49 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 0873a0a..ae677bf 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -111,12 +111,7 @@ class System(pc.System):
         """
         #ghost atoms are images in the old box, they have to be created again
         atoms = self.get_atoms() if self.ghosts_created else None
-        self._assign_box(userbox)
-        self.actual_box = None
-        self.ghosts_created = False
-        self.neighbors_found = False
-        if atoms is not None:
-            self.atoms = atoms
+        self._assign_configuration(atoms, userbox, userbox)
 
     def _assign_box(self, userbox):
         """
@@ -149,30 +144,42 @@ class System(pc.System):
         """
         Set atoms
         """
-        newbox = self.box
-        actual_box = None
+        if (len(atoms) < 200) and (np.sum(self.box) == 0):
+            raise ValueError("Simulation box should be initialized before atoms")
+        self._assign_configuration(atoms, self.box)
 
-        if(len(atoms) < 200):
+    def _assign_configuration(self, atoms, box, newbox=None):
+        """
+        Assign atoms and the box they are in, together or not at all. If `atoms` is None,
+        only the box is assigned.
+        """
+        ghosts = (atoms is not None) and (len(atoms) < 200)
+        if ghosts:
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
             #get a rough cell
             needed_cells = np.ceil(needed_atoms/len(atoms))
             nx = int(needed_cells**(1/3))
             nx = int(np.ceil(nx/2))
+            atoms, newbox = self._replicate((nx, nx, nx), atoms, box, ghost=True)
+        elif self.actual_box is not None:
+            newbox = box
+
+        previous = self._box
+        try:
+            if newbox is not None:
+                self._assign_box(newbox)
+            if atoms is not None:
+                self.set_atoms(atoms)
+        except:
+            #the old atoms are still there, and need their box
+            self._assign_box(previous)
+            raise
 
-            if np.sum(self.box) == 0:
-                raise ValueError("Simulation box should be initialized before atoms")
-            actual_box = self.box
-            atoms, newbox = self._replicate((nx, nx, nx), atoms, self.box, ghost=True)
-
-        self.set_atoms(atoms)
-        if (actual_box is not None) or (self.actual_box is not None):
-            self._assign_box(newbox)
-        self.actual_box = actual_box
-        self.ghosts_created = (actual_box is not None)
-        if self.ghosts_created:
-            #new ghost atoms do not have neighbors
+        self.actual_box = box if ghosts else None
+        if newbox is not None:
             self.neighbors_found = False
+        self.ghosts_created = ghosts
 
     def _update_atoms(self, atoms):
         """
-- 
2.43.0


From f819da3782b63fb0cb0d6b25553d3f586d2f885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 18/42] fix: atoms are added and set completely or not at all

---
 src/pyscal/system.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 19572b5..9196a1e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -174,9 +174,16 @@ void System::add_atoms(vector<Atom> atomitos){
 
     //if there is are no ghosts in system and list, just add and forget
     if((ghost_nop==0) && (tg==0)){
+        //all or none of the atoms are added
+        vector<Atom> all_atoms;
+        all_atoms.reserve(nop + atomitos.size());
+        for(int i=0; i<nop; i++){
+            all_atoms.emplace_back(atoms[i]);
+        }
         for (int i=0; i<atomitos.size(); i++){
-            atoms.emplace_back(atomitos[i]);
+            all_atoms.emplace_back(atomitos[i]);
         }
+        atoms.swap(all_atoms);
     }
     else{
         //now the atoms need to be reordered
@@ -201,14 +208,10 @@ void System::add_atoms(vector<Atom> atomitos){
             }            
         }
         //now put them all in the big list
-        atoms.clear();
-
-        for(int i=0; i<real_atoms.size(); i++){
-            atoms.emplace_back(real_atoms[i]);
-        }
         for(int i=0; i<ghost_atoms.size(); i++){
-            atoms.emplace_back(ghost_atoms[i]);
+            real_atoms.emplace_back(ghost_atoms[i]);
         }
+        atoms.swap(real_atoms);
 
         //we can clear now
         real_atoms.clear();
@@ -261,7 +264,8 @@ Atom System::gatom(int i) { return atoms.at(i); }
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
     Atom old = atoms.at(idd);
-    atoms[idd] = atom1;
+    Atom replacement = atom1;
+    swap(atoms[idd], replacement);
 
     //periodic images of the atom follow it
     for(int i=real_nop; i<nop; i++){
-- 
2.43.0


From 194df98d7fbaef10a59fa465fc1b492fb446b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 19/42] fix: chi parameters do not write to the custom values
 of other atoms

---
 src/pyscal/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ae677bf..076bb4f 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1287,7 +1287,10 @@ class System(pc.System):
             chivector = np.histogram(costhetas, bins=bins)
             atom.chiparams = chivector[0]
             if angles:
-                atom.custom['cosines'] = costhetas
+                #custom values are shared between copies of an atom
+                custom = dict(atom.custom)
+                custom['cosines'] = costhetas
+                atom.custom = custom
         self._update_atoms(atoms)
 
     
-- 
2.43.0


From bf8215d0f86c56663bd0826a1a039c19dc088ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 20/42] fix: Voronoi vertices are relative to their atom
 instead of an undefined point

---
 src/pyscal/system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9196a1e..65c6c63 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2005,7 +2005,7 @@ void System::get_all_neighbors_voronoi(){
     int i;
     int ti,id,tnx,tny,tnz, nverts;
 
-    double rx,ry,rz,tsum, fa, x, y, z, vol;
+    double rx,ry,rz,tsum, fa, vol;
     vector<int> neigh,f_vert, vert_nos;
     vector<double> facearea, v, faceperimeters;
     voronoicell_neighbor c;
@@ -2035,7 +2035,7 @@ void System::get_all_neighbors_voronoi(){
             c.neighbors(neigh);
             c.face_orders(f_vert);
             c.face_vertices(vert_nos);
-            c.vertices(x,y,z,v);
+            c.vertices(v);
             c.face_perimeters(faceperimeters);
 
             vol = c.volume();
-- 
2.43.0


From d11883322c44fcfc5f1d7790c1d0440ec4dd50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 21/42] fix: Voronoi cells in triclinic boxes are enclosed by
 enough ghost atoms

---
 src/pyscal/core.py    | 63 +++++++++++++++++++++++++++++++------------
 src/pyscal/system.cpp |  3 ++-
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 076bb4f..be59bb6 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -148,20 +148,23 @@ class System(pc.System):
             raise ValueError("Simulation box should be initialized before atoms")
         self._assign_configuration(atoms, self.box)
 
-    def _assign_configuration(self, atoms, box, newbox=None):
+    def _assign_configuration(self, atoms, box, newbox=None, reps=None):
         """
         Assign atoms and the box they are in, together or not at all. If `atoms` is None,
-        only the box is assigned.
+        only the box is assigned. `reps` is the number of ghost cells on either side, by default
+        only small systems have any.
         """
-        ghosts = (atoms is not None) and (len(atoms) < 200)
-        if ghosts:
+        ghosts = (atoms is not None) and ((len(atoms) < 200) or (reps is not None))
+        if ghosts and (reps is None):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
             #get a rough cell
             needed_cells = np.ceil(needed_atoms/len(atoms))
             nx = int(needed_cells**(1/3))
             nx = int(np.ceil(nx/2))
-            atoms, newbox = self._replicate((nx, nx, nx), atoms, box, ghost=True)
+            reps = (nx, nx, nx)
+        if ghosts:
+            atoms, newbox = self._replicate(reps, atoms, box, ghost=True)
         elif self.actual_box is not None:
             newbox = box
 
@@ -613,24 +616,50 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
-            backupbox = None
             if self.triclinic:
-                if not self.ghosts_created:
-                    atoms  = self.get_atoms()
-                    atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
-                    self.set_atoms(atoms)
-                #copy the simulation cell
-                backupbox = self._box.copy()
-                self.embed_in_cubic_box()
+                self._find_neighbors_voronoi_triclinic()
+            else:
+                self.get_all_neighbors_voronoi()
 
+        self.neighbors_found = True
+
+    def _find_neighbors_voronoi_triclinic(self):
+        """
+        Find Voronoi neighbors in a triclinic box. The box is surrounded by ghost atoms and embedded
+        in a cubic box. Enough ghost atoms are needed to enclose the cells of all atoms.
+        """
+        box = np.array(self.box, dtype=float)
+        frac = np.dot([atom.pos for atom in self.iter_atoms()], np.linalg.inv(box))
+        extent = np.ptp(frac, axis=0)
+        volume = np.abs(np.linalg.det(box))
+        widths = [volume/np.linalg.norm(np.cross(box[i-2], box[i-1])) for i in range(3)]
+        #ghost cells on either side which are there already
+        reps = [int(round(np.linalg.norm(self._box[i])/np.linalg.norm(box[i])))//2 for i in range(3)]
+        needed = [max(r, 1) for r in reps]
+
+        while True:
+            if needed != reps:
+                reps = needed
+                if self.natoms*np.prod(2.0*np.array(reps) + 1) > 2E6:
+                    raise RuntimeError("Voronoi cells extend over too many images of the simulation box")
+                self._assign_configuration(self.get_atoms(), self.box, reps=reps)
+
+            #copy the simulation cell
+            backupbox = self._box
             try:
+                self.embed_in_cubic_box()
                 self.get_all_neighbors_voronoi()
             finally:
                 #replace box
-                if backupbox is not None:
-                    self._assign_box(backupbox)
-
-        self.neighbors_found = True
+                self._assign_box(backupbox)
+
+            #a cell depends on all atoms up to twice the distance of its vertices
+            reach = max(2*np.max(np.linalg.norm(np.reshape(atom.vertex_vectors, (-1, 3)), axis=1))
+                        for atom in self.iter_atoms())
+            needed = [max(reps[i], int(np.ceil(reach/widths[i] + extent[i] - 1))) for i in range(3)]
+            if needed == reps:
+                break
+            self.reset_allneighbors()
 
     def find_diamond_neighbors(self):
         """
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 65c6c63..121debb 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2131,7 +2131,8 @@ void System::find_average_volume(){
         nn = atoms[ti].n_neighbors;
         vv = atoms[ti].volume;
         for (int ci = 0;ci<nn;ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].volume;
+            //ghost atoms at the border do not have complete cells
+            vv += atoms[real_index(atoms[ti].neighbors[ci])].volume;
         }
         vv = vv/(double(nn+1));
         atoms[ti].avgvolume = vv;
-- 
2.43.0


From 5cdc49067e2d9d0e407951ca325b2c9d608920e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 22/42] fix: averages over Voronoi neighbors use the values of
 real atoms instead of ghosts at the border

---
 src/pyscal/system.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 121debb..3d2a73d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1620,8 +1620,10 @@ void System::calculate_aq(vector <int> qs){
                 nns = 0;
                 for (int ci = 0;ci<nn;ci++){
                     if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue; 
-                    realti += atoms[atoms[ti].neighbors[ci]].realq[q-2][mi];
-                    imgti += atoms[atoms[ti].neighbors[ci]].imgq[q-2][mi];
+                    //ghost atoms at the border do not have all of their neighbors
+                    int tj = real_index(atoms[ti].neighbors[ci]);
+                    realti += atoms[tj].realq[q-2][mi];
+                    imgti += atoms[tj].imgq[q-2][mi];
                     nns += 1;
                 }
 
@@ -1697,7 +1699,7 @@ void System::calculate_disorder(){
         dis = 0;
 
         for(int c=0; c<atoms[ti].n_neighbors; c++){
-            int tj = atoms[ti].neighbors[c];
+            int tj = real_index(atoms[ti].neighbors[c]);
             sumSquareti = 0.0;
             sumSquaretj = 0.0;
             realdotproduct = 0.0;
@@ -1724,7 +1726,7 @@ void System::find_average_disorder(){
         nn = atoms[ti].n_neighbors;
         vv = atoms[ti].disorder;
         for (int ci = 0; ci<nn; ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].disorder;
+            vv += atoms[real_index(atoms[ti].neighbors[ci])].disorder;
         }
         vv = vv/(double(nn+1));
         atoms[ti].avgdisorder = vv;
@@ -1791,7 +1793,7 @@ void System::calculate_frenkel_numbers(){
         atoms[ti].avq6q6 = 0.0;
         for (int c = 0;c<atoms[ti].n_neighbors;c++){
 
-            scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
+            scalar = get_number_from_bond(ti,real_index(atoms[ti].neighbors[c]));
             atoms[ti].sij[c] = scalar;
             if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-- 
2.43.0


From 4ca572a24120de982c5b6bdf42b8eb0c8db84459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 23/42] fix: clustering that fails does not leave its
 conditions and incomplete clusters behind

---
 src/pyscal/core.py            |  5 +----
 src/pyscal/system.cpp         | 39 ++++++++++++++---------------------
 src/pyscal/system.h           |  4 +---
 src/pyscal/system_binding.cpp |  2 --
 4 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index be59bb6..6821dcf 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1138,10 +1138,7 @@ class System(pc.System):
             values = [int(condition(atom)) for atom in atoms]
 
         #the condition is only for clustering, and not for other calculations
-        previous = self.cget_conditions()
-        self.cset_conditions(values)
-        self.cfind_clusters_recursive(cutoff)
-        self.cset_conditions(previous)
+        self.cfind_clusters_recursive(cutoff, values)
 
         #done!
         lc = self.find_largest_cluster()
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3d2a73d..3fcf22e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1875,25 +1875,12 @@ int System::real_index(int ti){
     return ((head >= 0) && (head < real_nop)) ? head : ti;
 }
 
-void System::set_conditions(vector<int> conditions){
+//conditions are those of the real atoms
+void System::find_clusters_recursive(double clustercutoff, vector<int> conditions){
+
     if (conditions.size() != (size_t) real_nop){
         throw invalid_argument("number of conditions should be the number of atoms in the system");
     }
-    for(int ti=0; ti<nop; ti++){
-        int tr = real_index(ti);
-        if (tr < real_nop) atoms[ti].condition = conditions[tr];
-    }
-}
-
-vector<int> System::get_conditions(){
-    vector<int> conditions;
-    for(int ti=0; ti<real_nop; ti++){
-        conditions.emplace_back(atoms[ti].condition);
-    }
-    return conditions;
-}
-
-void System::find_clusters_recursive(double clustercutoff){
 
     int clusterindex = 0;
     double cutoff;
@@ -1902,14 +1889,14 @@ void System::find_clusters_recursive(double clustercutoff){
     //atoms belong to the same cluster if either of them is within the
     //cutoff of the other
     vector< vector<int> > links(real_nop);
+    vector<int> cluster(real_nop, -1);
     for (int ti=0; ti<real_nop; ti++){
-        atoms[ti].belongsto = -1;
-        if (!atoms[ti].condition) continue;
+        if (!conditions[ti]) continue;
         cutoff = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
         for(int i=0; i<atoms[ti].n_neighbors; i++){
             neigh = real_index(atoms[ti].neighbors[i]);
             if (neigh >= real_nop) continue;
-            if (!atoms[neigh].condition) continue;
+            if (!conditions[neigh]) continue;
             if (!(atoms[ti].neighbordist[i] <= cutoff)) continue;
             links[ti].emplace_back(neigh);
             links[neigh].emplace_back(ti);
@@ -1918,22 +1905,26 @@ void System::find_clusters_recursive(double clustercutoff){
 
     vector<int> pending;
     for (int ti=0; ti<real_nop; ti++){
-        if (!atoms[ti].condition) continue;
-        if (atoms[ti].belongsto != -1) continue;
+        if (!conditions[ti]) continue;
+        if (cluster[ti] != -1) continue;
         clusterindex += 1;
-        atoms[ti].belongsto = clusterindex;
+        cluster[ti] = clusterindex;
         pending.emplace_back(ti);
         while (!pending.empty()){
             int tj = pending.back();
             pending.pop_back();
             for(size_t i=0; i<links[tj].size(); i++){
                 neigh = links[tj][i];
-                if (atoms[neigh].belongsto != -1) continue;
-                atoms[neigh].belongsto = clusterindex;
+                if (cluster[neigh] != -1) continue;
+                cluster[neigh] = clusterindex;
                 pending.emplace_back(neigh);
             }
         }
     }
+
+    for (int ti=0; ti<real_nop; ti++){
+        atoms[ti].belongsto = cluster[ti];
+    }
 }
 
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 15e453c..3f6e12c 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -144,9 +144,7 @@ class System{
         void find_solid_atoms();
         void find_clusters(double);
         int real_index(int);
-        void set_conditions(vector<int>);
-        vector<int> get_conditions();
-        void find_clusters_recursive(double);
+        void find_clusters_recursive(double, vector<int>);
         int largest_cluster();
         void set_nucsize_parameters(double,double,double);
         void get_largest_cluster_atoms();
diff --git a/src/pyscal/system_binding.cpp b/src/pyscal/system_binding.cpp
index e903831..802f550 100644
--- a/src/pyscal/system_binding.cpp
+++ b/src/pyscal/system_binding.cpp
@@ -100,8 +100,6 @@ PYBIND11_MODULE(csystem, m) {
         .def("calculate_frenkelnumbers",&System::calculate_frenkel_numbers)
         .def("cfind_clusters",&System::find_clusters)
         .def("cfind_clusters_recursive",&System::find_clusters_recursive)
-        .def("cset_conditions",&System::set_conditions)
-        .def("cget_conditions",&System::get_conditions)
         .def("find_largest_cluster",&System::largest_cluster)
         .def("get_largest_cluster_atoms",&System::get_largest_cluster_atoms)
         .def("find_solid_atoms",&System::find_solid_atoms)
-- 
2.43.0


From e8c2af049ee01ad28321275dc65d7f2e9382009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 24/42] fix: left-handed boxes have a positive volume in
 neighbor methods and entropy

---
 src/pyscal/core.py    | 2 +-
 src/pyscal/system.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 6821dcf..2bf9550 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1839,7 +1839,7 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3fcf22e..68bf184 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -989,7 +989,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     }
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
@@ -1191,7 +1191,7 @@ int System::get_all_neighbors_sann(double prefactor){
 
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
@@ -1297,7 +1297,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
     }
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
-- 
2.43.0


From f6f0871b0c2083242a0491db0f009954365bcf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:28 +0000
Subject: [PATCH 25/42] fix: averaged entropy was undefined for atoms at ra,
 entropy where no neighbor contributes

---
 src/pyscal/atom.cpp   | 4 +++-
 src/pyscal/system.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index dcb380e..c660944 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -456,7 +456,9 @@ double Atom::gmr(double r)
 double Atom::entropy_integrand(double r)
 {
         double g = gmr(r);
-        return ((g*log(g)-g +1.00)*r*r);
+        //g*log(g) vanishes where there are no neighbors
+        double glog = (g > 0) ? g*log(g) : 0.00;
+        return ((glog-g +1.00)*r*r);
 }
 
 
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 68bf184..9c9f1e7 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2593,6 +2593,8 @@ double System::switching_fn(double rij, double ra, int M, int N){
 
     double num = 1.0 - pow((rij/ra), N);
     double denum = 1.0 - pow((rij/ra), M);
+    //limit for neighbors at ra
+    if (fabs(rij/ra - 1.0) < 1E-8) return N/double(M);
     return num/denum;
 }
 
-- 
2.43.0


From c68a4d696f0203ede47bdaebd107e60a657b88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:28 +0000
Subject: [PATCH 26/42] fix: short range order with types other than 1 to k
 used the wrong concentration

---
 src/pyscal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 2bf9550..58ae5dc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1677,8 +1677,8 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        mref  = types[1][types[0] == reference_type][0]/float(np.sum(types[1]))
+        mcomp = types[1][types[0] == compare_type][0]/float(np.sum(types[1]))
 
         for atom in atoms:
             if atom.type == reference_type:
-- 
2.43.0


From b0af9b970220100e06f1ebf41b5206a728e40a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 27/42] fix: boxes whose elements sum to zero were taken for
 missing boxes

---
 src/pyscal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 58ae5dc..b1d89e4 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -144,7 +144,7 @@ class System(pc.System):
         """
         Set atoms
         """
-        if (len(atoms) < 200) and (np.sum(self.box) == 0):
+        if (len(atoms) < 200) and (not np.any(self.box)):
             raise ValueError("Simulation box should be initialized before atoms")
         self._assign_configuration(atoms, self.box)
 
@@ -203,7 +203,7 @@ class System(pc.System):
         -------
         None
         """
-        if np.sum(self.box) == 0:
+        if not np.any(self.box):
             self.cadd_atoms(atoms)
         else:
             #the number of ghost atoms that are needed may change
-- 
2.43.0


From 8a79edece613b4717aad3addc2a588db2a99395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:26 +0000
Subject: [PATCH 28/42] fix: Voronoi faces of an earlier search were shown for
 neighbors found later

---
 src/pyscal/system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9c9f1e7..b67c804 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -483,6 +483,9 @@ void System::reset_all_neighbors(){
 
             atoms[ti].neighbors[tn] = NILVALUE;
             atoms[ti].neighbordist[tn] = -1.0;
+            //faces of Voronoi cells belong to neighbors
+            atoms[ti].facevertices[tn] = -1;
+            atoms[ti].faceperimeters[tn] = -1.0;
         }
     }
 }
@@ -498,6 +501,9 @@ void System::reset_main_neighbors(){
 
             atoms[ti].neighbors[tn] = NILVALUE;
             atoms[ti].neighbordist[tn] = -1.0;
+            //faces of Voronoi cells belong to neighbors
+            atoms[ti].facevertices[tn] = -1;
+            atoms[ti].faceperimeters[tn] = -1.0;
         }
     }
 }
-- 
2.43.0


From f1a99fd0a7a44bd7e7e06bea12baaa6f1240dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:13 +0000
Subject: [PATCH 29/42] fix: cutoff of atoms without neighbors was that of an
 earlier search

---
 src/pyscal/system.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index b67c804..a460491 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -711,6 +711,10 @@ void System::get_all_neighbors_cells(){
     set_up_cells();
     int maincell, subcell;
 
+    //also of atoms without neighbors
+    for (int ti=0; ti<nop; ti++)
+        atoms[ti].cutoff = neighbordistance;
+
     //now loop to find distance
     for(int i=0; i<total_cells; i++){
         //now go over the neighbor cells
@@ -789,6 +793,10 @@ void System::get_all_neighbors_normal(){
     double diffx,diffy,diffz;
     double r,theta,phi;
 
+    //also of atoms without neighbors
+    for (int ti=0; ti<nop; ti++)
+        atoms[ti].cutoff = neighbordistance;
+
     for (int ti=0; ti<nop; ti++){
         for (int tj=ti; tj<nop; tj++){
             if(ti==tj) { continue; }
-- 
2.43.0


From 1fe13c704a445c3013e6fbb1c96e4367c10f4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 30/42] fix: an atom is exchanged as a whole even when memory
 runs out

---
 src/pyscal/atom.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyscal/atom.h b/src/pyscal/atom.h
index 0d497b7..bedb571 100644
--- a/src/pyscal/atom.h
+++ b/src/pyscal/atom.h
@@ -76,6 +76,11 @@ class Atom{
         //-------------------------------------------------------
         Atom(vector<double>, int, int);
         virtual ~Atom();
+        //atoms are moved without copying, exchanging them cannot fail
+        Atom(const Atom&) = default;
+        Atom(Atom&&) = default;
+        Atom& operator=(const Atom&) = default;
+        Atom& operator=(Atom&&) = default;
 
         //-------------------------------------------------------
         // Basic Atom properties
-- 
2.43.0


From 31a06e73957c11fad700c6ec80b6accfe81b50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:18 +0000
Subject: [PATCH 31/42] fix: Voronoi cells do not depend on the unit of length

---
 src/pyscal/system.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index a460491..7332bfe 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2024,15 +2024,19 @@ void System::get_all_neighbors_voronoi(){
     vector <double> pos;
 
     //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
-    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
+    //tolerances of voro++ are absolute, and meant for distances close to one
+    int exponent = 1;
+    frexp(cbrt(boxx*boxy*boxz/nop), &exponent);
+    const double unit = ldexp(1.0, exponent-1);
+    pre_container pcon(0.00, boxx/unit, 0.00, boxy/unit, 0.0, boxz/unit, true, true, true);
     for(int i=0; i<nop; i++){
         pos = atoms[i].gx();
         pos = remap_atom(pos);
-        pcon.put(i, pos[0], pos[1], pos[2]);
+        pcon.put(i, pos[0]/unit, pos[1]/unit, pos[2]/unit);
     }
     pcon.guess_optimal(tnx,tny,tnz);
     //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
-    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
+    container con(0.00, boxx/unit, 0.00, boxy/unit, 0.0, boxz/unit, tnx, tny, tnz, true, true, true, nop);
     pcon.setup(con);
 
     c_loop_all cl(con);
@@ -2045,7 +2049,10 @@ void System::get_all_neighbors_voronoi(){
             c.vertices(v);
             c.face_perimeters(faceperimeters);
 
-            vol = c.volume();
+            vol = c.volume()*unit*unit*unit;
+            for (double &x : facearea) x *= unit*unit;
+            for (double &x : v) x *= unit;
+            for (double &x : faceperimeters) x *= unit;
             tsum = 0;
             vector <double> dummyweights;
             vector <int> dummyneighs;
-- 
2.43.0


From 4ac1bcde0c157517a9b9d93910785c5ffb3d6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:09 +0000
Subject: [PATCH 32/42] fix: a cubic box contains the atoms on its faces once

---
 src/pyscal/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index b1d89e4..0c7f276 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2139,13 +2139,14 @@ class System(pc.System):
             hi = max(anchor.pos[count], minatom.pos[count])
             nb.append([lo, hi])
 
-        #collect atoms
+        #collect atoms, positions on the faces of the box are only known up to rounding
+        tol = 1E-5
         collectedatoms = []
         for atom in ratoms:
             pos = atom.pos
-            if (nb[0][0] <= pos[0] < nb[0][1]):
-                if (nb[1][0] <= pos[1] < nb[1][1]):
-                    if (nb[2][0] <= pos[2] < nb[2][1]):
+            if (nb[0][0]-tol <= pos[0] < nb[0][1]-tol):
+                if (nb[1][0]-tol <= pos[1] < nb[1][1]-tol):
+                    if (nb[2][0]-tol <= pos[2] < nb[2][1]-tol):
                         collectedatoms.append(atom)
 
         #remap atoms to box
-- 
2.43.0


From af6f9eb9efd1bf1a57a6bac125ae497430fc07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:27 +0000
Subject: [PATCH 33/42] fix: to_dict left frames loaded if it was interrupted

---
 src/pyscal/trajectory.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index f80abc7..d92d1fb 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -155,12 +155,10 @@ class Timeslice:
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
                 #blocks that are already loaded might be modified
-                loaded = traj.loadlist[x]
-                if not loaded:
-                    traj.load(x)
-                data.append(traj.data[x])
-                if not loaded:
-                    traj.unload(x)
+                if traj.loadlist[x]:
+                    data.append(traj.data[x])
+                else:
+                    data.append(traj._get_block_data(x))
         return data
 
     def to_file(self, outfile, mode="w"):
@@ -447,6 +445,24 @@ class Trajectory:
         data is kept in memory until unloaded using `unload`
         method.
         """
+        self.data[blockno] = self._get_block_data(blockno)
+        self.loadlist[blockno] = True
+
+    def _get_block_data(self, blockno):
+        """
+        Get the data of a block in the input file as a dictionary
+        of numpy arrays
+
+        Parameters
+        ----------
+        blockno : int
+            number of the block to be read, starts from 0
+
+        Returns
+        -------
+        outdict : dict
+            box and columns of the block
+        """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
         columns = np.loadtxt(data[9:], ndmin=2)
@@ -457,8 +473,7 @@ class Trajectory:
         for count, h in enumerate(header):
             outdict["atoms"][h] = columns[:,count]        
 
-        self.data[blockno] = outdict
-        self.loadlist[blockno] = True
+        return outdict
 
     def unload(self, blockno):
         """
-- 
2.43.0


From 418d081818e5e82660f8daa5560bc410755093c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:29 +0000
Subject: [PATCH 34/42] fix: compare_atomic_env failed if volumes and polyhedra
 differed in number, and printed polyhedra of other volumes

---
 src/pyscal/misc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3ccdf97..5a5a096 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -57,11 +57,11 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             vors.append(" ".join(np.array(atom.vorovector).astype(str)))
     vols = np.array(vols)
     vols = np.round(vols, decimals=precision)
-    vvx, vvc = np.unique(vols, return_counts=True)
-    vrx, vrc = np.unique(vors, return_counts=True)
+    vvx, vvi, vvc = np.unique(vols, return_index=True, return_counts=True)
+    vrx = np.unique(vors)
 
     length_mismatch = False
-    if (len(vvx) != len(vrx)):
+    if (len(set(zip(vols, vors))) != len(vvx)):
         warnings.warn("Different voronoi polyhedra with same volume! Fingerprint wont be printed. Maybe change precision?")
         length_mismatch = True
 
@@ -72,7 +72,7 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
         print("%d clusters found"%len(vvx))
         if not length_mismatch:
             for i in range(len(vvx)):
-                print("voro fingerprint = <%s>, vol = %.3f, counts = %d"%(vrx[i], vvx[i], vvc[i]))
+                print("voro fingerprint = <%s>, vol = %.3f, counts = %d"%(vors[vvi[i]], vvx[i], vvc[i]))
         else:
             for i in range(len(vvx)):
                 print("voro fingerprint = <x x x x>, vol = %.3f, counts = %d"%(vvx[i], vvc[i]))
@@ -80,9 +80,9 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             return sys
     else:
         if return_system:
-            return np.array([vvx, vrx, vvc]), sys
+            return (vvx, vrx, vvc), sys
         else:
-            return np.array([vvx, vrx, vvc])
+            return vvx, vrx, vvc
 
 
 def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_system=False, 
-- 
2.43.0


From 62ce102689f0c6a55a211e79ca398ca75f3dcc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 35/42] fix: find_tetrahedral_voids gave direct coordinates by
 the old form of the box and failed for neighbors across the cell

---
 src/pyscal/misc.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 5a5a096..98cfe5f 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -134,19 +134,15 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     pos = []
     types = []
 
-    box = sys.box
-    boxx = box[0][1] - box[0][0]
-    boxy = box[1][1] - box[1][0]
-    boxz = box[2][1] - box[2][0]
+    box = np.array(sys.box)
 
     if len(atoms) < 21:
         warnings.warn("Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ")
 
     for atom in atoms:
         if atom.vorovector[1] == 4:
-            #first to prevent small cells we need to filter
-            neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, atoms[x]) for x in neighs])
+            #in small cells the neighbors are images of the atoms
+            dists = np.array(atom.neighbor_distance)
             mindist = dists[np.argsort(dists)][0]
             mindistcount = 0
             for i in range(len(dists)):
@@ -156,8 +152,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
             if mindistcount == 4:
                 volumes.append(atom.volume)
                 if direct_coordinates:
-                    p = atom.pos
-                    pos.append([p[0]/boxx, p[1]/boxy, p[2]/boxz])
+                    pos.append(list(np.linalg.solve(box.T, atom.pos)))
                 else:
                     pos.append(atom.pos)
                 types.append(atom.type)
-- 
2.43.0


From fc547182d7a502b4e21bbe5796163fb022001dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:30 +0000
Subject: [PATCH 36/42] fix: read_inputfile that ran out of memory left the old
 atoms in the box of the file

---
 src/pyscal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 0c7f276..ed7e671 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -260,8 +260,8 @@ class System(pc.System):
                                         )
         if len(atoms) == 0:
             raise ValueError("no atoms were found in the input file")
-        self.box = box
-        self.atoms = atoms
+        box = np.array(box, dtype=float).tolist()
+        self._assign_configuration(atoms, box, box)
 
 
     def get_atom(self, index):
-- 
2.43.0


From 9ef41cb9a2fad4402f1fc10babb074febdc7707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 37/42] fix: atoms that are filtered out of a plot have no
 color in it

The colors were those of all the atoms, so with `filterby` the atoms plotted
had the colors of other atoms.
---
 src/pyscal/visualization.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 915bfc0..7cde705 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -155,11 +155,10 @@ def plot_system(sys, colorby=None, filterby=None):
     filters = []
     for count, atom in enumerate(atoms):
         if filterby is not None:
-            if sys.get_custom(atom, [filterby])[0]:
-                positions.append(np.array(sys.remap_atom(atom.pos)))
-        else:
-            positions.append(np.array(sys.remap_atom(atom.pos)))
-    
+            if not sys.get_custom(atom, [filterby])[0]:
+                continue
+        positions.append(np.array(sys.remap_atom(atom.pos)))
+
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
             colors.append(cx)
-- 
2.43.0


From 237bc059afa530b3f14dc6a0b0198de7909c6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 38/42] fix: plots rendered again do not show the atoms of the
 plots before

The atoms were added to the list of box traces, so every press of `Render plot`
plotted the atoms with all the earlier radii, too. Without traces, the default,
plot_3d raised AttributeError.
---
 src/pyscal/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 7cde705..d3a6970 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -101,6 +101,8 @@ def plot_3d(pos, color=None, radius=17,
             line=dict(width=0.5, color='#455A64')
         )
     )
+    #the traces of the box are plotted again when the plot is rendered again
+    traces = [] if traces is None else list(traces)
     traces.append(data)
     fig = go.Figure(data=traces)
     fig.update_layout(scene = dict(
-- 
2.43.0


From ba68bbf4e28595c879b98a6ba2bfe8bb9408ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 39/42] fix: a plot in which no atom is left by the filter
 shows the empty box

Rendering it raised IndexError.
---
 src/pyscal/visualization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index d3a6970..a487e05 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -84,6 +84,7 @@ def plot_3d(pos, color=None, radius=17,
     cmap_title : string
         title of cmap 
     """
+    pos = np.reshape(pos, (-1, 3))
     data=go.Scatter3d(
         x=pos[:,0],
         y=pos[:,1],
-- 
2.43.0


From 803b87b021670b4c8b4434aa961f2ca7597de922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 40/42] fix: the whole box is plotted at the origin given

Only one corner of it was moved to the origin.
---
 src/pyscal/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index a487e05..5045f44 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -35,12 +35,12 @@ def create_box_plot(box, origin=[0,0,0]):
     combos = list(itertools.combinations(range(3), 2))
     faces = []
     for combo in combos:
-        f1 = [origin, box[combo[0]], box[combo[0]]+box[combo[1]], box[combo[1]], origin]
+        f1 = np.array([np.zeros(3), box[combo[0]], box[combo[0]]+box[combo[1]], box[combo[1]], np.zeros(3)])
         s = combo[0] + combo[1]
         t = 3-s
-        f2 = [origin + box[t], box[combo[0]]+ box[t],  box[combo[0]]+box[combo[1]]+ box[t], box[combo[1]]+ box[t], origin + box[t]]
-        faces.append(np.array(f1))
-        faces.append(np.array(f2))
+        f2 = f1 + box[t]
+        faces.append(origin + f1)
+        faces.append(origin + f2)
     traces = []
     for face in faces:
         trace = go.Scatter3d(
-- 
2.43.0


From 2baf4a95e7e7ef3068cc497d72c8259f93429c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 41/42] fix: atoms are plotted inside the box that is plotted

In triclinic boxes atoms were mapped to a box centered at the origin, and in small
systems into the box with the ghost atoms, while the box plotted is neither.
---
 src/pyscal/visualization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 5045f44..1dc7f48 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -160,7 +160,7 @@ def plot_system(sys, colorby=None, filterby=None):
         if filterby is not None:
             if not sys.get_custom(atom, [filterby])[0]:
                 continue
-        positions.append(np.array(sys.remap_atom(atom.pos)))
+        positions.append(np.array(atom.pos))
 
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
@@ -168,7 +168,13 @@ def plot_system(sys, colorby=None, filterby=None):
         else:
             colors.append(1)
     colors = np.array(colors).astype(float)
-    
+
+    #atoms are shown in the box that is plotted
+    box = np.array(sys.box, dtype=float)
+    if positions and np.linalg.det(box) != 0:
+        frac = np.dot(positions, np.linalg.inv(box))
+        positions = np.dot(frac - np.floor(frac), box)
+
     boxtraces = create_box_plot(sys.box)
     
     if colorby is None:
-- 
2.43.0


From 31bd9fef4d405dcd111f80ccdea2b25abcf98143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 42/42] fix: Atom.bonds is the number of solid bonds

The attribute was defined a second time, for the bonds of common neighbor
analysis, which hid the one that is documented.
---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index 86d0398..1086986 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -422,7 +422,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     .def_readwrite("common", &Atom::common, R"mydelimiter(
     )mydelimiter")
 
-    .def_readwrite("bonds", &Atom::bonds, R"mydelimiter(
+    .def_readwrite("cna_bonds", &Atom::bonds, R"mydelimiter(
     )mydelimiter")
 
     //-------------------------------------------------------
-- 
2.43.0

