CASES = []
D = "src/data.rs"
B = "src/course_builder.rs"


def b(name, *edits, props="C22", f=D):
    CASES.append((name, "breaks", props, [(f, o, n) for o, n in edits]))


def k(name, *edits, f=D):
    CASES.append((name, "keeps", "*", [(f, o, n) for o, n in edits]))


b("pa-back-path", ("Some(normalize_path(working_dir, back_path)?)", "Some(back_path.clone())"))
b("pa-back-front", ("Some(normalize_path(working_dir, back_path)?)", "Some(normalize_path(working_dir, front_path)?)"))
b("pa-back-drop", ('''                let abs_back_path = if let Some(back_path) = back_path {
                    Some(normalize_path(working_dir, back_path)?)
                } else {
                    None // grcov-excl-line
                };''', '''                let abs_back_path = back_path.as_ref().and_then(|p| normalize_path(working_dir, p).ok());'''))
b("pa-cwd", ("    Ok(working_dir\n        .join(path)\n        .canonicalize()?", "    Ok(path\n        .canonicalize()?"))
b("pa-lesson-material", ("clone.lesson_material = Some(asset.normalize_paths(working_dir)?);", "clone.lesson_instructions = Some(asset.normalize_paths(working_dir)?);"))
b("pa-course-material", ("            Some(asset) => clone.course_material = Some(asset.normalize_paths(working_directory)?),", "            Some(_) if clone.course_instructions.is_some() => (),\n            Some(asset) => clone.course_material = Some(asset.normalize_paths(working_directory)?),"))
b("pa-no-canon", ("        .join(path)\n        .canonicalize()?\n        .to_str()", "        .join(path)\n        .to_str()"))
b("pa-verify-or", ("Ok(instruction_exists && material_exists)", "Ok(instruction_exists || material_exists)"))
b("pa-verify-relative", ("let abs_path = working_dir.join(Path::new(path));\n                Ok(abs_path.exists())", "let abs_path = Path::new(path);\n                Ok(abs_path.exists())"))
b("pa-build-unverified", ('''            self.course_manifest
                .verify_paths(&course_directory)
                .context(format!(
                    "failed to verify files for course {}",
                    self.course_manifest.id
                ))?,
''', '''            self.course_manifest.course_material.is_none() || self.course_manifest
                .verify_paths(&course_directory)
                .context(format!(
                    "failed to verify files for course {}",
                    self.course_manifest.id
                ))?,
'''), f=B)
b("pa-build-parent", ("                .verify_paths(&course_directory)", "                .verify_paths(parent_directory)"), f=B)
b("pa-overwrite", ('''        ensure!(
            !asset_path.exists(),''', '''        ensure!(
            !asset_path.exists() || self.contents.is_empty(),'''), f=B)

k("pa-match", ('''        if let Some(asset) = &self.lesson_instructions {
            clone.lesson_instructions = Some(asset.normalize_paths(working_dir)?);
        }
''', '''        clone.lesson_instructions = match &self.lesson_instructions {
            Some(asset) => Some(asset.normalize_paths(working_dir)?),
            None => None,
        };
'''))
k("pa-transpose", ('''                let abs_back_path = if let Some(back_path) = back_path {
                    Some(normalize_path(working_dir, back_path)?)
                } else {
                    None // grcov-excl-line
                };''', '''                let abs_back_path = back_path
                    .as_ref()
                    .map(|back_path| normalize_path(working_dir, back_path))
                    .transpose()?;'''))
k("pa-early", ('''    if path.is_absolute() {
        return Ok(path_str.to_string());
    }

    Ok(working_dir
        .join(path)
        .canonicalize()?
        .to_str()
        .unwrap_or(path_str)
        .to_string())''', '''    if !path.is_absolute() {
        let full = working_dir.join(path).canonicalize()?;
        return match full.to_str() {
            Some(full) => Ok(full.to_owned()),
            None => Ok(path_str.to_owned()),
        };
    }
    Ok(path_str.to_owned())'''))
k("pa-struct", ('''        let mut clone = self.clone();
        clone.exercise_asset = clone.exercise_asset.normalize_paths(working_dir)?;
        Ok(clone)''', '''        Ok(ExerciseManifest {
            exercise_asset: self.exercise_asset.normalize_paths(working_dir)?,
            ..self.clone()
        })'''))
k("pa-verify-early", ('''        // The paths mentioned in the instructions and material must both exist.
        let instruction_exists = match &self.lesson_instructions {
            None => true,
            Some(asset) => asset.verify_paths(working_dir)?,
        };
        let material_exists = match &self.lesson_material {
            None => true,
            Some(asset) => asset.verify_paths(working_dir)?,
        };
        Ok(instruction_exists && material_exists)''', '''        for asset in [&self.lesson_instructions, &self.lesson_material].into_iter().flatten() {
            if !asset.verify_paths(working_dir)? {
                return Ok(false);
            }
        }
        Ok(true)'''))
k("pa-verify-mapor", ('''        let instruction_exists = match &self.lesson_instructions {
            None => true,
            Some(asset) => asset.verify_paths(working_dir)?,
        };''', '''        let instruction_exists = self
            .lesson_instructions
            .as_ref()
            .map_or(Ok(true), |asset| asset.verify_paths(working_dir))?;'''))
k("pa-build-bail", ('''        ensure!(
            manifest
                .verify_paths(lesson_directory)
                .context(format!("failed to verify files for lesson {}", manifest.id))?,
            "files for lesson {} are missing",
            manifest.id
        );
        Ok(())''', '''        let all_there = manifest.verify_paths(lesson_directory)?;
        if all_there {
            Ok(())
        } else {
            Err(anyhow::anyhow!("files for lesson {} are missing", manifest.id))
        }'''), f=B)
b("pa-verify-cond", ('''            None => true,
            Some(asset) => asset.verify_paths(working_dir)?,
        };
        Ok(instruction_exists''', '''            None => true,
            Some(_) if self.name.is_empty() => true,
            Some(asset) => asset.verify_paths(working_dir)?,
        };
        Ok(instruction_exists'''))
