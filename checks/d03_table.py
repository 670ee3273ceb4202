"""The related records of each record: (record, how many, condition)."""
RELATIONS = {
    'Activation.code_block': ('CodeBlock', 'one',
        'Activation.code_block_id == CodeBlock.id & Activation.trial_id == '
        'CodeBlock.trial_id'),
    'Activation.collection_membership': ('Member', 'many',
        'Activation.id == Member.collection_activation_id & Activation.trial_id == '
        'Member.trial_id'),
    'Activation.dependency_dependencies': ('Dependency', 'many',
        'Activation.id == Dependency.dependency_activation_id & Activation.trial_id == '
        'Dependency.trial_id'),
    'Activation.dependent_dependencies': ('Dependency', 'many',
        'Activation.id == Dependency.dependent_activation_id & Activation.trial_id == '
        'Dependency.trial_id'),
    'Activation.evaluations': ('Evaluation', 'many',
        'Activation.id == Evaluation.activation_id & Activation.trial_id == '
        'Evaluation.trial_id'),
    'Activation.file_accesses': ('FileAccess', 'many',
        'fk'),
    'Activation.member_membership': ('Member', 'many',
        'Activation.id == Member.member_activation_id & Activation.trial_id == '
        'Member.trial_id'),
    'Activation.this_evaluation': ('Evaluation', 'first',
        'Activation.id == Evaluation.id & Activation.trial_id == Evaluation.trial_id'),
    'Activation.trial': ('Trial', 'one',
        'fk'),
    'Argument.trial': ('Trial', 'one',
        'Argument.trial_id == Trial.id'),
    'CodeBlock.activations': ('Activation', 'many',
        'Activation.code_block_id == CodeBlock.id & Activation.trial_id == '
        'CodeBlock.trial_id'),
    'CodeBlock.components': ('CodeComponent', 'many',
        'CodeBlock.id == CodeComponent.container_id & CodeBlock.trial_id == '
        'CodeComponent.trial_id'),
    'CodeBlock.modules': ('Module', 'many',
        'fk'),
    'CodeBlock.this_component': ('CodeComponent', 'first',
        'CodeBlock.id == CodeComponent.id & CodeBlock.trial_id == CodeComponent.trial_id'),
    'CodeBlock.trial': ('Trial', 'one',
        'fk'),
    'CodeComponent.children': ('CodeComponent', 'many',
        'CodeComponent.id == Composition.whole_id & CodeComponent.trial_id == '
        'Composition.trial_id / CodeComponent.id == Composition.part_id & '
        'CodeComponent.trial_id == Composition.trial_id via Composition'),
    'CodeComponent.compositions_as_part': ('Composition', 'many',
        'CodeComponent.id == Composition.part_id & CodeComponent.trial_id == '
        'Composition.trial_id'),
    'CodeComponent.compositions_as_whole': ('Composition', 'many',
        'CodeComponent.id == Composition.whole_id & CodeComponent.trial_id == '
        'Composition.trial_id'),
    'CodeComponent.container': ('CodeBlock', 'one',
        'CodeBlock.id == CodeComponent.container_id & CodeBlock.trial_id == '
        'CodeComponent.trial_id'),
    'CodeComponent.evaluations': ('Evaluation', 'many',
        'fk'),
    'CodeComponent.parents': ('CodeComponent', 'many',
        'CodeComponent.id == Composition.part_id & CodeComponent.trial_id == '
        'Composition.trial_id / CodeComponent.id == Composition.whole_id & '
        'CodeComponent.trial_id == Composition.trial_id via Composition'),
    'CodeComponent.this_block': ('CodeBlock', 'one',
        'CodeBlock.id == CodeComponent.id & CodeBlock.trial_id == CodeComponent.trial_id'),
    'CodeComponent.trial': ('Trial', 'one',
        'fk'),
    'Composition.part': ('CodeComponent', 'one',
        'CodeComponent.id == Composition.part_id & CodeComponent.trial_id == '
        'Composition.trial_id'),
    'Composition.trial': ('Trial', 'one',
        'fk'),
    'Composition.whole': ('CodeComponent', 'one',
        'CodeComponent.id == Composition.whole_id & CodeComponent.trial_id == '
        'Composition.trial_id'),
    'Dependency.dependency': ('Evaluation', 'one',
        'Dependency.dependency_activation_id == Evaluation.activation_id & '
        'Dependency.dependency_id == Evaluation.id & Dependency.trial_id == '
        'Evaluation.trial_id'),
    'Dependency.dependency_activation': ('Activation', 'one',
        'Activation.id == Dependency.dependency_activation_id & Activation.trial_id == '
        'Dependency.trial_id'),
    'Dependency.dependent': ('Evaluation', 'one',
        'Dependency.dependent_activation_id == Evaluation.activation_id & '
        'Dependency.dependent_id == Evaluation.id & Dependency.trial_id == '
        'Evaluation.trial_id'),
    'Dependency.dependent_activation': ('Activation', 'one',
        'Activation.id == Dependency.dependent_activation_id & Activation.trial_id == '
        'Dependency.trial_id'),
    'Dependency.trial': ('Trial', 'one',
        'fk'),
    'EnvironmentAttr.trial': ('Trial', 'one',
        'fk'),
    'Evaluation.activation': ('Activation', 'one',
        'Activation.id == Evaluation.activation_id & Activation.trial_id == '
        'Evaluation.trial_id'),
    'Evaluation.code_component': ('CodeComponent', 'one',
        'fk'),
    'Evaluation.collections': ('Evaluation', 'many',
        'Evaluation.activation_id == Member.member_activation_id & Evaluation.id == '
        'Member.member_id & Evaluation.trial_id == Member.trial_id / '
        'Evaluation.activation_id == Member.collection_activation_id & Evaluation.id == '
        'Member.collection_id & Evaluation.trial_id == Member.trial_id via Member'),
    'Evaluation.container_members': ('Evaluation', 'many',
        'Evaluation.activation_id == Evaluation.member_container_activation_id & '
        'Evaluation.id == Evaluation.member_container_id & Evaluation.trial_id == '
        'Evaluation.trial_id to Evaluation.member_container_activation_id,Evaluation.memb '
        'er_container_id,Evaluation.trial_id'),
    'Evaluation.dependencies': ('Evaluation', 'many',
        'Dependency.dependent_activation_id == Evaluation.activation_id & '
        'Dependency.dependent_id == Evaluation.id & Dependency.trial_id == '
        'Evaluation.trial_id / Dependency.dependency_activation_id == '
        'Evaluation.activation_id & Dependency.dependency_id == Evaluation.id & '
        'Dependency.trial_id == Evaluation.trial_id via Dependency'),
    'Evaluation.dependencies_as_dependency': ('Dependency', 'many',
        'Dependency.dependency_activation_id == Evaluation.activation_id & '
        'Dependency.dependency_id == Evaluation.id & Dependency.trial_id == '
        'Evaluation.trial_id'),
    'Evaluation.dependencies_as_dependent': ('Dependency', 'many',
        'Dependency.dependent_activation_id == Evaluation.activation_id & '
        'Dependency.dependent_id == Evaluation.id & Dependency.trial_id == '
        'Evaluation.trial_id'),
    'Evaluation.dependents': ('Evaluation', 'many',
        'Dependency.dependency_activation_id == Evaluation.activation_id & '
        'Dependency.dependency_id == Evaluation.id & Dependency.trial_id == '
        'Evaluation.trial_id / Dependency.dependent_activation_id == '
        'Evaluation.activation_id & Dependency.dependent_id == Evaluation.id & '
        'Dependency.trial_id == Evaluation.trial_id via Dependency'),
    'Evaluation.member_container': ('Evaluation', 'one',
        'Evaluation.activation_id == Evaluation.member_container_activation_id & '
        'Evaluation.id == Evaluation.member_container_id & Evaluation.trial_id == '
        'Evaluation.trial_id to '
        'Evaluation.activation_id,Evaluation.id,Evaluation.trial_id'),
    'Evaluation.members': ('Evaluation', 'many',
        'Evaluation.activation_id == Member.collection_activation_id & Evaluation.id == '
        'Member.collection_id & Evaluation.trial_id == Member.trial_id / '
        'Evaluation.activation_id == Member.member_activation_id & Evaluation.id == '
        'Member.member_id & Evaluation.trial_id == Member.trial_id via Member'),
    'Evaluation.memberships_as_collection': ('Member', 'many',
        'Evaluation.activation_id == Member.collection_activation_id & Evaluation.id == '
        'Member.collection_id & Evaluation.trial_id == Member.trial_id'),
    'Evaluation.memberships_as_member': ('Member', 'many',
        'Evaluation.activation_id == Member.member_activation_id & Evaluation.id == '
        'Member.member_id & Evaluation.trial_id == Member.trial_id'),
    'Evaluation.this_activation': ('Activation', 'one',
        'Activation.id == Evaluation.id & Activation.trial_id == Evaluation.trial_id'),
    'Evaluation.trial': ('Trial', 'one',
        'fk'),
    'FileAccess.activation': ('Activation', 'one',
        'fk'),
    'FileAccess.trial': ('Trial', 'one',
        'fk'),
    'Head.trial': ('Trial', 'one',
        'fk'),
    'Member.collection': ('Evaluation', 'one',
        'Evaluation.activation_id == Member.collection_activation_id & Evaluation.id == '
        'Member.collection_id & Evaluation.trial_id == Member.trial_id'),
    'Member.collection_activation': ('Activation', 'one',
        'Activation.id == Member.collection_activation_id & Activation.trial_id == '
        'Member.trial_id'),
    'Member.member': ('Evaluation', 'one',
        'Evaluation.activation_id == Member.member_activation_id & Evaluation.id == '
        'Member.member_id & Evaluation.trial_id == Member.trial_id'),
    'Member.member_activation': ('Activation', 'one',
        'Activation.id == Member.member_activation_id & Activation.trial_id == '
        'Member.trial_id'),
    'Member.trial': ('Trial', 'one',
        'fk'),
    'Module.code_block': ('CodeBlock', 'one',
        'fk'),
    'Module.trial': ('Trial', 'one',
        'fk'),
    'Tag.trial': ('Trial', 'one',
        'fk'),
    'Trial._modules': ('Module', 'many',
        'fk'),
    'Trial.activations': ('Activation', 'many',
        'fk order Activation.start_checkpoint'),
    'Trial.arguments': ('Argument', 'many',
        'Argument.trial_id == Trial.id'),
    'Trial.bypass_children': ('Trial', 'many',
        'Trial.id == Trial.modules_inherited_from_trial_id to '
        'Trial.modules_inherited_from_trial_id'),
    'Trial.children': ('Trial', 'many',
        'Trial.id == Trial.parent_id to Trial.parent_id'),
    'Trial.code_blocks': ('CodeBlock', 'many',
        'fk'),
    'Trial.code_components': ('CodeComponent', 'many',
        'fk'),
    'Trial.compositions': ('Composition', 'many',
        'fk'),
    'Trial.dependencies': ('Dependency', 'many',
        'fk'),
    'Trial.environment_attrs': ('EnvironmentAttr', 'many',
        'fk'),
    'Trial.evaluations': ('Evaluation', 'many',
        'fk'),
    'Trial.file_accesses': ('FileAccess', 'many',
        'fk'),
    'Trial.main': ('CodeBlock', 'one',
        'CodeBlock.id == Trial.main_id & CodeBlock.trial_id == Trial.id'),
    'Trial.members': ('Member', 'many',
        'fk'),
    'Trial.modules_inherited_from_trial': ('Trial', 'one',
        'Trial.id == Trial.modules_inherited_from_trial_id to Trial.id'),
    'Trial.parent': ('Trial', 'one',
        'Trial.id == Trial.parent_id to Trial.id'),
    'Trial.tags': ('Tag', 'many',
        'fk'),
}
